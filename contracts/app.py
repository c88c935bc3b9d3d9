"""planarityApp: letters of the algorithms, names, file comparison (C24).  A file is a finite sequence of characters; the comparison
relation 'equal from i and j on, carriage returns left out' is the least one that satisfies the equations in lem()."""
import ctypes, os, sys, tempfile
from .stack import *
from .gview import newgraph, GP, OK, NOTOK, NONEMB
from cdv.conc import CP, Violation, Reject
from cdv.contract import scenario
from cdv.exec import Ptr, Block, NULLP
from cdv import terms as T_, files
P = 'C24'
libc = ctypes.CDLL(None)
class FName:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    tag = property(lambda s: s.h.b.tag)
    def data(s):
        """concrete: content or None"""
        try: return open(s.m.cstr(s.h).decode('latin1'), 'rb').read()
        except OSError: return None
_dir = []
def scratch():
    if not _dir: _dir.append(tempfile.mkdtemp(prefix='cdv-app-', dir=os.path.dirname(sys.argv[1]) if os.environ.get('CDV_CHILD') else None))
    return _dir[0]
ALPH = [b'a', b'b', b'\r', b'\n', b'\r\n', b'\xff', b'\x00', b'\x80', b' ', b'\x1a']
def text(rng): return b''.join(rng.choice(ALPH) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12, 200])))
def variant(rng, b):
    """a text that differs little from b"""
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.choice(['cr', 'nocr', 'cut', 'more', 'change', 'insert', 'crlf']); i = rng.randint(0, len(b))
        if k == 'cr': b = b[:i] + b'\r' + b[i:]
        elif k == 'nocr': b = b.replace(b'\r', b'')
        elif k == 'crlf': b = b.replace(b'\n', b'\r\n')
        elif k == 'cut': b = b[:-1] if rng.random() < .6 else b[:i]
        elif k == 'more': b += rng.choice(ALPH)
        elif k == 'insert': b = b[:i] + rng.choice(ALPH) + b[i:]
        elif b: i = rng.randrange(len(b)); b = b[:i] + rng.choice(ALPH) + b[i + 1:]
    return b
class FNameKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = Block(tag, CT('char'), None, 'fname'); X.blocks[b.id] = b
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return FName(mem, val)
    def cmake(s, g, rng, nm):
        last = getattr(g, 'lasttext', None); d = variant(rng, last) if last is not None and rng.random() < .85 else text(rng); g.lasttext = d
        f = os.path.join(scratch(), nm)
        if rng.random() < .05:
            if os.path.exists(f): os.unlink(f)
            g.trace.append('%s: no such file' % nm)
        else: open(f, 'wb').write(d); g.trace.append('%s: %r' % (nm, d))
        return CP(g.cstr(f), CT('char'))
KINDS['fname'] = FNameKind()
# ---------------------------------------------------------------- comparison
def nocr(b): return b.replace(b'\r', b'')
def E(i, j): return T_.app('same', (i, j), 'Bool')
def lem(skip, len1, at1, len2, at2):
    """definition of 'same' (recursion on what is left of both)"""
    def f(v, a):
        i, j = T_.bvar('i'), T_.bvar('j'); c1, c2 = at1(v)(i), at2(v)(j); n1, n2 = len1(v), len2(v)
        dom = T_.and_(T_.le(0, i), T_.le(i, n1), T_.le(0, j), T_.le(j, n2)); m1, m2 = T_.lt(i, n1), T_.lt(j, n2)
        cr1, cr2 = T_.and_(m1, T_.eq(c1, 13)) if skip else T_.FALSE, T_.and_(m2, T_.eq(c2, 13)) if skip else T_.FALSE
        body = T_.and_(T_.implies(cr1, T_.eq(E(i, j), E(T_.add(i, 1), j))), T_.implies(T_.and_(T_.nt(cr1), cr2), T_.eq(E(i, j), E(i, T_.add(j, 1)))),
            T_.implies(cr2, T_.eq(E(i, j), E(i, T_.add(j, 1)))),
            T_.implies(T_.and_(T_.nt(m1), T_.nt(m2)), E(i, j)), T_.implies(T_.and_(T_.nt(m1), m2, T_.nt(cr2)), T_.nt(E(i, j))), T_.implies(T_.and_(m1, T_.nt(cr1), T_.nt(m2)), T_.nt(E(i, j))),
            T_.implies(T_.and_(m1, m2, T_.nt(cr1), T_.nt(cr2)), T_.eq(E(i, j), T_.and_(T_.eq(c1, c2), E(T_.add(i, 1), T_.add(j, 1))))))
        return [('definition of the comparison relation (recursive)', T_.forall([i, j], T_.implies(dom, body), [[E(i, j)]]))]
    return f
F1 = dict(len1=lambda v: files.flen(v.f.tag), at1=lambda v: files.content(v.f.tag))
F2 = dict(len2=lambda v: files.flen(v.g.tag), at2=lambda v: files.content(v.g.tag))
def pos(c, nm):
    p = c.v(nm)
    return c.st.mem[(p.b.id, ('$pos',))]
def inv2(c):
    p, q = pos(c, 'infile1'), pos(c, 'infile2'); o = c.X.old
    return [('positions', And(Le(0, p, files.flen(o.f.tag)), Le(0, q, files.flen(o.g.tag)))), ('equal so far', T_.eq(E(p, q), E(0, 0))), ('no difference found', Eq(c.v('Result'), 1))]
def inner2(c):
    """second file: carriage returns are skipped; one character of the first file is in hand unless it ended"""
    p, q = pos(c, 'infile1'), pos(c, 'infile2'); p0, q0 = pos(type(c)(c.X, c.entry, c.entry), 'infile1'), pos(type(c)(c.X, c.entry, c.entry), 'infile2'); o = c.X.old
    z = T_.ite(T_.eq(c.v('c1'), -1), p0, T_.sub(p0, 1))
    return [('position', And(Le(q0, q, files.flen(o.g.tag)), Eq(p, p0))), ('only carriage returns skipped', T_.eq(E(z, q), E(z, q0)))]
def cmp_post(ref):
    def f(o, n, a, r):
        if o.mem.sym: return [('equal exactly if both open and the contents are the same', Iff(Ne(r, 0), And(files.opens(o.f.tag), files.opens(o.g.tag), E(0, 0)))), ('TRUE or FALSE', Or(Eq(r, 0), Eq(r, 1)))]
        x, y = o.f.data(), o.g.data()
        return [('equal exactly if both open and the contents are the same', (r != 0) == (x is not None and y is not None and ref(x) == ref(y))), ('TRUE or FALSE', r in (0, 1))]
    return f
v1 = lambda nm, tagn: lambda c: T_.sub(files.flen(getattr(c.X.old, tagn).tag), pos(c, nm))
contract('TextFilesEqual', [('f', 'fname'), ('g', 'fname')], prop=P, modular=False, noleak=True, assume=lem(True, **F1, **F2),
    loops={'TextFilesEqual:0': (inv2, v1('infile1', 'f')), 'TextFilesEqual:1': (inner2, v1('infile2', 'g')), 'TextFilesEqual:2': (inner2, v1('infile2', 'g'))}, ensures=cmp_post(nocr))
contract('BinaryFilesEqual', [('f', 'fname'), ('g', 'fname')], prop=P, modular=False, noleak=True, assume=lem(False, **F1, **F2), loops={'BinaryFilesEqual:0': (inv2, v1('infile1', 'f'))}, ensures=cmp_post(lambda b: b))
def pos1(c): return c.v('stringIndex')
def invs(c):
    p, q = pos(c, 'infile'), c.v('stringIndex'); o = c.X.old
    return [('positions', And(Le(0, p, files.flen(o.f.tag)), Le(0, q, o.s.n))), ('equal so far', T_.eq(E(p, q), E(0, 0))), ('no difference found', Eq(c.v('Result'), 1))]
def inners(c):
    en = type(c)(c.X, c.entry, c.entry); p0, q, q0 = pos(en, 'infile'), c.v('stringIndex'), en.v('stringIndex'); o = c.X.old
    z = T_.ite(T_.eq(c.v('c1'), -1), p0, T_.sub(p0, 1))
    return [('position', And(Le(q0, q, o.s.n), Eq(pos(c, 'infile'), p0))), ('only carriage returns skipped', T_.eq(E(z, q), E(z, q0)))]
def uch(v): return lambda i: T_.ite(T_.lt(v.s.at(i), 0), T_.add(v.s.at(i), 256), v.s.at(i))
def smatch(o, n, a, r):
    if o.mem.sym: return [('equal exactly if the file opens and has the content of the string', Iff(Ne(r, 0), And(Not(o.f.null), files.opens(o.f.tag), E(0, 0)))), ('TRUE or FALSE', Or(Eq(r, 0), Eq(r, 1)))]
    x = None if o.f.null else o.f.data()
    return [('equal exactly if the file opens and has the content of the string', (r != 0) == (x is not None and nocr(x) == nocr(o.mem.cstr(a.s)))), ('TRUE or FALSE', r in (0, 1))]
def gen_match(g, rng):
    d = text(rng).replace(b'\0', b'x'); g.lasttext = d; f = KINDS['fname'].cmake(g, rng, 'f')
    if rng.random() < .05: f = CP(0, CT('char'))
    g.trace.append('string: %r' % d); return [f, CP(g.cstr(d), CT('char'))]
from . import strio
contract('TextFileMatchesString', [('f', 'fname?'), ('s', 'cstr')], gen=gen_match, prop=P, modular=False, noleak=True, requires=lambda v, a: [('string', v.s.wf())], assume=lem(True, **F1, len2=lambda v: v.s.n, at2=uch),
    loops={'TextFileMatchesString:0': (invs, v1('infile', 'f')), 'TextFileMatchesString:1': (inners, lambda c: T_.sub(c.X.old.s.n, c.v('stringIndex'))), 'TextFileMatchesString:2': (inners, lambda c: T_.sub(c.X.old.s.n, c.v('stringIndex')))}, ensures=smatch)
# ---------------------------------------------------------------- letters
FLAG = {'p': 1, 'o': 2, 'd': 5, '2': 18, '3': 65, '4': 34}
NAME = {'p': 'PlanarEmbed', 'o': 'OuterplanarEmbed', 'd': 'DrawPlanar', '2': 'K23Search', '3': 'K33Search', '4': 'K4Search'}
TNAME = {'g': 'G6', 'a': 'AdjList', 'm': 'AdjMat'}
def isname(mem, r, s):
    if mem.sym: return t.B(isinstance(r, Ptr) and r.b is not None and r.b.text == s and r.i is t.I(0)) if isinstance(r, Ptr) else t.FALSE
    return ctypes.string_at(r.addr) == s.encode()
def letters(D, other):
    def f(o, n, a, r):
        out = [('letter %s' % k, Implies(Eq(a.command, ord(k)), lambda k=k: isname(o.mem, r, D[k]))) for k in D]
        return out + [('any other letter is unsupported', Implies(And(*[Ne(a.command, ord(k)) for k in D]), lambda: isname(o.mem, r, other)))]
    return f
def lgen(extra=''):
    def f(g, rng): return [rng.choice([ord(c) for c in 'pdo234gam' + extra] + [rng.randint(-128, 127)])]
    return f
contract('GetEmbedFlags', [('command', 'char')], prop=P, modular=False, gen=lgen(), ensures=lambda o, n, a, r: [('letter %s' % k, Implies(Eq(a.command, ord(k)), Eq(r, FLAG[k]))) for k in FLAG] + [('any other letter has no flags', Implies(And(*[Ne(a.command, ord(k)) for k in FLAG]), Eq(r, 0)))])
contract('GetAlgorithmName', [('command', 'char')], prop=P, modular=False, gen=lgen(), ensures=letters(NAME, 'UnsupportedAlgorithm'))
contract('GetTransformationName', [('command', 'char')], prop=P, modular=False, gen=lgen(), ensures=letters(TNAME, 'UnsupportedTransformation'))
contract('GetAlgorithmChoices', [], prop=P, modular=False, gen=lambda g, rng: [], ensures=lambda o, n, a, r: [('the six letters', isname(o.mem, r, 'pdo234') if o.mem.sym else sorted(ctypes.string_at(r.addr)) == sorted(b'pdo234'))])
contract('GetSupportedOutputFormats', [], prop=P, modular=False, gen=lambda g, rng: [], ensures=lambda o, n, a, r: [('the three letters', isname(o.mem, r, 'gam') if o.mem.sym else sorted(ctypes.string_at(r.addr)) == sorted(b'gam'))])
contract('GetBaseName', [('baseFlag', 'int')], prop=P, modular=False, ensures=lambda o, n, a, r: [('name', And(Implies(Ne(a.baseFlag, 0), lambda: isname(o.mem, r, '1-based')), Implies(Eq(a.baseFlag, 0), lambda: isname(o.mem, r, '0-based'))))])
# ---- the extension attached: calls recorded in ghost state
class Att:
    def __init__(s, m, h): s.m = m; s.h = h
    att = property(lambda s: s.m.st.mem.get((s.h.b.id, ('$attached',)), t.I(0)) if s.m.sym else None)
class AttKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = Block(tag, CT('void'), None, 'opaque'); X.blocks[b.id] = b; st.mem[(b.id, ('$attached',))] = t.I(0)
        return Ptr(b, 0)
    def view(s, mem, val): return Att(mem, val)
    def cmake(s, g, rng, nm): return newgraph(g, rng.randint(1, 5))
KINDS['attg'] = AttKind()
def m_att(k):
    def f(X, st, args, n):
        p = args[0]
        if not isinstance(p, Ptr) or p.b is None or not st.has(p.b, ('$attached',)): X.oblige(st, 'extension is attached to the given graph', 'pre', t.FALSE, n); return []
        v = st.get(p.b, ('$attached',)); st.set(p.b, ('$attached',), t.add(t.mul(v, 100), k))
        return [(st, t.I(1))]
    return f
ATT = {'gp_AttachDrawPlanar': ('d', 5), 'gp_AttachK23Search': ('2', 18), 'gp_AttachK33Search': ('3', 65), 'gp_AttachK4Search': ('4', 34)}
ID = {'d': 'DRAWPLANAR_ID', '2': 'K23SEARCH_ID', '3': 'K33SEARCH_ID', '4': 'K4SEARCH_ID'}
def attached(g, p):
    q = g.lib.cdv_malloc(8); g.tofree.append(q); out = set()
    for l, i in ID.items():
        k = ctypes.c_int.in_dll(g.lib, i).value
        if k and g.call('gp_FindExtension', p, k, q): out.add(l)
    return out
def attpost(o, n, a, r):
    if not o.mem.sym:
        has = attached(o.mem.g, a.theGraph); want = {l for f, (l, c) in ATT.items() if ord(l) == a.command}
        return [('exactly the extension of the letter is attached', has == want)]
    return [('letter %s attaches exactly its extension' % k, Implies(Eq(a.command, ord(k)), Eq(n.theGraph.att, c))) for k, c in ATT.values()] + [('any other letter attaches nothing', Implies(And(*[Ne(a.command, ord(k)) for k, c in ATT.values()]), Eq(n.theGraph.att, 0)))]
contract('AttachAlgorithm', [('theGraph', 'attg'), ('command', 'char')], prop=P, modular=False, gen=lambda g, rng: [KINDS['attg'].cmake(g, rng, ''), lgen()(g, rng)[0]], allocfail=False, modifies=['*'], models={k: m_att(c) for k, (l, c) in ATT.items()}, ensures=attpost)

# ---------------------------------------------------------------- the program as a whole, letter by letter
from . import emb, oracle as O
from .gio import ppvar, fresh
VERD = {'p': lambda A: O.planar(A), 'd': lambda A: O.planar(A), 'o': lambda A: O.outerplanar(A), '2': lambda A: not O.has_k23(A), '3': lambda A: not O.has_k33(A), '4': lambda A: not O.has_k4(A)}
def rd(f):
    try: return open(f, 'rb').read()
    except OSError: return None
def small(rng):
    while True:
        try: n, es = emb.graph_(rng, rng.choice([4, 5, 6]))
        except Reject: continue
        if n <= 20: return n, sorted(es)
def listtext(n, es, one=True):
    k = 1 if one else 0
    return ('N=%d\n' % n + ''.join('%d: %s%d\n' % (v - 1 + k, ''.join('%d ' % (w - 1 + k) for a, b in es for w in ([b] if a == v else [a] if b == v else [])), k - 1) for v in range(1, n + 1))).encode()
def g6text(n, es):
    S = set(es); bits = [1 if (i, j) in S else 0 for j in range(2, n + 1) for i in range(1, j)]; bits += [0] * (-len(bits) % 6)
    return bytes([n + 63]) + bytes(63 + int(''.join(map(str, bits[k:k + 6])), 2) for k in range(0, len(bits), 6))
def argv(g, l):
    p = g.lib.cdv_malloc(8 * (len(l) + 1)); g.tofree.append(p)
    for i, x in enumerate(l): g.poke(p + 8 * i, 'ptr', g.cstr(x))
    g.poke(p + 8 * len(l), 'ptr', 0); return p
def clean(d):
    for x in os.listdir(d): os.unlink(os.path.join(d, x))
def quiet(g): g.call('setQuietModeSetting', 1)
def string(g, p, mode):
    q = ppvar(g)
    if g.call('gp_WriteToString', p, q, mode) != OK: raise Reject('reference output')
    z = g.peek(q.addr, 'ptr'); b = ctypes.string_at(z); g.lib.cdv_free(z); return b
def reference(g, letter, inp):
    """(result, text of the graph afterwards, rendering)"""
    p = fresh(g)
    if g.call('gp_Read', p, g.cstr(inp)) != OK: raise Reject('input')
    if letter in ID: g.call({l: f for f, (l, c) in ATT.items()}[letter], p)
    r = g.call('gp_Embed', p, FLAG[letter]); ren = None; g.call('gp_SortVertices', p)
    if letter == 'd' and r == OK:
        q = ppvar(g); g.call('gp_DrawPlanar_RenderToString', p, q); z = g.peek(q.addr, 'ptr'); ren = ctypes.string_at(z); g.lib.cdv_free(z)
    return r, string(g, p, 1), ren
def letter_(rng): return rng.choice('pdo234') if rng.random() < .85 else rng.choice(['\0', 'x', 'P', '1', '5', 'g', 'D', '-'])
@scenario('app_specific', P)
def app_specific(g, rng, log):
    d = scratch(); clean(d); n, es = small(rng); L = letter_(rng); inp = os.path.join(d, 'in.txt'); quiet(g)
    fmt = rng.choice(['list', 'list0', 'g6']) if n > 0 else 'list'
    open(inp, 'wb').write(g6text(n, es) if fmt == 'g6' else listtext(n, es, fmt == 'list'))
    cli = rng.random() < .5; second = rng.choice([None, 'out2', '']); first = rng.choice(['out1', None]) if not cli else 'out1'
    if cli and second == '': second = None
    o1 = os.path.join(d, first) if first else None; o2 = os.path.join(d, second) if second else second
    log({'letter': L, 'n': n, 'edges': es, 'format': fmt, 'command line': cli, 'outputs': [first, second]})
    known = L in VERD; res, txt, ren = reference(g, L, inp) if known else (NOTOK, None, None)
    if cli:
        a = ['planarity', '-s'] + (['-q'] if rng.random() < .7 else []) + ['-' + (L if L != '\0' else ''), inp, o1] + ([o2] if o2 is not None else [])
        r = {0: OK, 1: NONEMB, -1: NOTOK}.get(g.call('commandLine', len(a), argv(g, a)), 99)
    else: r = g.call('SpecificGraph', ord(L), g.cstr(inp), g.cstr(o1) if o1 else 0, g.cstr(o2) if o2 is not None else 0, 0, 0, 0)
    if known:
        want = OK if VERD[L](O.norm(n, es)) else NONEMB
        if r != want: raise Violation("letter '%s': result %d instead of %d" % (L, r, want))
    elif r != NOTOK: raise Violation("the unknown letter %r is not refused (result %d)" % (L, r))
    name = o1 or inp + '.' + NAME.get(L, '?') + '.out.txt'
    got = {f: rd(os.path.join(d, f)) for f in os.listdir(d) if f != 'in.txt'}; exp = {}
    if known and not (L in 'pdo' and r == NONEMB or L in '234' and r == OK): exp[os.path.basename(name)] = txt
    if known and second is not None:
        if L in 'po' and r == NONEMB: exp[os.path.basename(name) if second == '' else second] = txt
        if L == 'd' and r == OK: exp[os.path.basename(name) + '.render.txt' if second == '' else second] = ren
    if set(got) != set(exp): raise Violation("letter '%s': files %s written instead of %s" % (L, sorted(got), sorted(exp)))
    for f in exp:
        if got[f] != exp[f]: raise Violation("letter '%s': %s contains %r instead of %r" % (L, f, got[f][:200], exp[f][:200]))
@scenario('app_testall', P)
def app_testall(g, rng, log):
    d = scratch(); clean(d); quiet(g); n = rng.randint(2, 9); gs = []; L = letter_(rng); inp = os.path.join(d, 'in.g6'); out = os.path.join(d, 'out.txt')
    for _ in range(rng.choice([0, 1, 2, 5])):
        H = emb.addrand((n, set()), rng, rng.randint(0, rng.choice([3, 8, 20, 40]))); gs.append(sorted(H[1]))
    if not gs: gs = [[]]
    open(inp, 'wb').write((b'>>graph6<<' if rng.random() < .3 else b'') + b''.join(g6text(n, e) + b'\n' for e in gs)); cli = rng.random() < .5
    log({'letter': L, 'n': n, 'graphs': gs, 'command line': cli})
    if cli:
        a = ['planarity', '-t'] + (['-q'] if rng.random() < .7 else []) + ['-' + (L if L != '\0' else ''), inp, out]
        r = {0: OK, 1: NONEMB, -1: NOTOK}.get(g.call('commandLine', len(a), argv(g, a)), 99)
    else: r = g.call('TestAllGraphs', g.cstr('-' + (L if L != '\0' else '')), g.cstr(inp), g.cstr(out), 0)
    if L not in VERD:
        if r != NOTOK: raise Violation('the unknown letter %r is not refused (result %d)' % (L, r))
        return
    ok = sum(bool(VERD[L](O.norm(n, e))) for e in gs); w = '-%s %d %d %d SUCCESS' % (L, len(gs), ok, len(gs) - ok)
    z = (rd(out) or b'').decode().splitlines()
    if r != OK or len(z) != 2 or z[1].strip() != w: raise Violation('result %d, report %s instead of %r' % (r, z, w))
@scenario('app_transform', P)
def app_transform(g, rng, log):
    d = scratch(); clean(d); quiet(g); n, es = small(rng); L = rng.choice('gam') if rng.random() < .85 else rng.choice(['x', '', 'G', 'p', 'd']); inp = os.path.join(d, 'in.txt'); out = os.path.join(d, 'out.txt')
    fmt = rng.choice(['list', 'list0', 'g6']); open(inp, 'wb').write(g6text(n, es) if fmt == 'g6' else listtext(n, es, fmt == 'list')); cli = rng.random() < .5
    log({'letter': L, 'n': n, 'edges': es, 'format': fmt, 'command line': cli})
    a = ['planarity', '-x'] + (['-q'] if rng.random() < .7 else []) + ['-' + L, inp, out]; av = argv(g, a); sv = [g.cstr('-' + L), g.cstr(inp), g.cstr(out)]; live = g.counter('cdv_live').value
    if cli: r = {0: OK, 1: NONEMB, -1: NOTOK}.get(g.call('commandLine', len(a), av), 99)
    else: r = g.call('TransformGraph', sv[0], sv[1], 0, 0, sv[2], 0)
    if g.counter('cdv_live').value > live: raise Violation('storage is leaked')
    if L not in ('g', 'a', 'm'):
        if r != NOTOK or rd(out) is not None: raise Violation('the unknown letter %r is not refused (result %d)' % (L, r))
        return
    if r != OK: raise Violation('result %d' % r)
    p = fresh(g)
    if g.call('gp_Read', p, g.cstr(inp)) != OK: raise Reject('input')
    w = string(g, p, {'a': 1, 'm': 2, 'g': 4}[L]); z = rd(out)
    if z != w: raise Violation('output %r instead of %r' % (z, w))
    if L == 'g' and z.strip() != b'>>graph6<<' + g6text(n, es): raise Violation('output %r is not the graph6 form' % z)
