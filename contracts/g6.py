"""graph6 reader and writer (C11).  Oracle: the format's definition - order prefix in base 64 digits plus 63, then the upper
triangle of the adjacency matrix by columns, six bits per character, padded with zero bits."""
from .strio import *
from . import strio
from .gview import GV, liveview
P = 'C11'
MAXN = 100000
tri = lambda n: n * (n - 1)
order = lambda v, a: [('supported order', Le(1, a.n, MAXN))]
contract('_getMaxEdgeCount', [('n', 'int')], requires=lambda v, a: [('supported order', Le(0, a.n, MAXN))], prop=P,
    lemmas=lambda o, a: [('one of two consecutive numbers is even', (lambda m: Or(Eq(tri(a.n), 2 * (m * (2 * m - 1))), Eq(tri(a.n), 2 * (m * (2 * m + 1)))))(Div(a.n, 2)))],
    ensures=lambda o, n, a, r: [('number of vertex pairs', Eq(2 * r, tri(a.n))), ('range', Le(0, r, MAXN * MAXN))])
contract('_getNumCharsForGraphEncoding', [('n', 'int')], requires=order, prop=P,
    ensures=lambda o, n, a, r: [('six pairs per character, rounded up', And(Le(tri(a.n), 12 * r), Lt(12 * r, tri(a.n) + 12))), ('range', Le(0, r, 833325000))])
contract('_getNumCharsForGraphOrder', [('n', 'int')], prop=P,
    ensures=lambda o, n, a, r: [('one character up to 62, four up to 100000, refused otherwise', Eq(r, Ite(Or(Lt(a.n, 1), Lt(MAXN, a.n)), -1, Ite(Lt(a.n, 63), 1, 4))))])
contract('_getExpectedNumPaddingZeroes', [('n', 'int'), ('numChars', 'int')], requires=lambda v, a: order(v, a) + [('characters of the encoding', And(Le(tri(a.n), 12 * a.numChars), Lt(12 * a.numChars, tri(a.n) + 12)))], prop=P,
    ensures=lambda o, n, a, r: [('bits left over', Eq(2 * r, 12 * a.numChars - tri(a.n))), ('fewer than six', In(0, r, 6))])
class Longs:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    def at(s, i): return s.m.at(s.h, (), i)
    def len(s): return s.m.length(s.h)
class LongsKind(Kind):
    def make(s, X, st, tag, nullable=False):
        ln = t.var(tag + '#len'); st.assume(t.le(0, ln))
        b = X.new_block(st, tag, CT('long'), ln, kind='param')
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return Longs(mem, val)
    def blocks(s, mem, val, tag): return {tag: val.b} if val.b else {}
    def cmake(s, g, rng, nm):
        k = rng.choice([2, 3, 4, 7, 65, 300]); g.hints += [k - 1]
        return CP(g.alloc(8 * k, 0x41), CT('long'))
KINDS['longs'] = LongsKind()
contract('_precomputeColumnOffsets', [('offs', 'longs?'), ('n', 'int')], requires=lambda v, a: order(v, a) + [('room', Implies(Not(v.offs.null), lambda: Lt(a.n, v.offs.len())))], modifies=['offs'], prop=P,
    loops={'_precomputeColumnOffsets:0': (lambda c: [('columns done', And(Le(2, c.v('i')), Le(c.v('i'), Max(2, c.X.args.n + 1)), All(1, c.v('i'), lambda k: Eq(2 * c.X.views_of(c.st).offs.at(k), tri(k)), pat=lambda k: [c.X.views_of(c.st).offs.at(k)])))],
        lambda c: c.X.args.n + 1 - c.v('i'))},
    ensures=lambda o, n, a, r: [('column c starts after the pairs of all earlier columns', Implies(Not(o.offs.null), lambda: All(1, a.n + 1, lambda k: Eq(2 * n.offs.at(k), tri(k)))))])
dig = lambda c: In(63, c, 127)
def prefix(C):
    """what the format's order prefix denotes: (valid, value)"""
    c = [C(i) for i in range(4)]
    v4 = (c[1] - 63) * 4096 + (c[2] - 63) * 64 + (c[3] - 63)
    four = And(Eq(c[0], 126), Ne(c[1], 126), dig(c[1]), dig(c[2]), dig(c[3]))
    return Or(In(63, c[0], 126), And(four, Le(v4, MAXN))), Ite(Eq(c[0], 126), v4, c[0] - 63), four
def getorder_post(o, n, a, r):
    ok, val, _ = prefix(lambda i: Ite(Lt(o.f.pos + i, o.f.n), lambda: o.f.at(o.f.pos + i), -1))
    return [('accepted exactly if the prefix is well formed', Iff(Eq(r, OK), ok)), ('otherwise refused', Or(Eq(r, OK), Eq(r, NOTOK))), ('the order it denotes', Implies(ok, Eq(n.order.val, val))),
        ('exactly the prefix is consumed', Implies(ok, Eq(n.f.pos, o.f.pos + Ite(Eq(o.f.at(o.f.pos), 126), 4, 1)))), ('input is kept', All(0, o.f.n + 1, lambda i: Eq(n.f.at(i), o.f.at(i)))), ('position within the input', Le(0, n.f.pos, o.f.n)), ('refusal gives no order', Implies(Ne(r, OK), Eq(n.order.val, o.order.val)))]
def gen_order(g, rng):
    f = sfwith(g, rng, rng.choice([[chr(rng.randint(60, 127))], ['~'] + [chr(rng.choice([62, 63, 64, 87, rng.randint(60, 127), 125, 126])) for _ in range(rng.randint(0, 4))]]))
    return [f, CP(g.alloc(4), CT('int'))]
def sfwith(g, rng, z):
    z = ''.join(z); b = g.lib.cdv_malloc(len(z) + 1); ctypes.memmove(b, z.encode('latin-1') + b'\0', len(z) + 1)
    p = CP(g.call('sf_New', 0, b), SFT); g.tofree += [b, p.addr]; g.trace.append('input: %r' % z)
    return p
contract('_getGraphOrder', [('f', 'sf'), ('order', 'pint')], requires=lambda v, a: v.f.wf(), modifies=['f.theStrPos', 'f:theStr', 'order'], prop=P, modular=False, gen=gen_order, ensures=getorder_post, use=())
def chkorder_post(o, n, a, r):
    ok, val, four = prefix(lambda i: o.b.at(i))
    return [('accepted exactly if the prefix is well formed, in the expected form, and denotes the expected order', Iff(Eq(r, OK), And(ok, Eq(val, a.n), Iff(Eq(o.b.at(0), 126), Lt(62, a.n))))), ('otherwise refused', Or(Eq(r, OK), Eq(r, NOTOK)))]
def gen_chk(g, rng):
    n = rng.choice([1, 2, 62, 63, 64, 100, 4096, 100000]); z = bytes([63 + n]) if n < 63 else bytes([126] + [63 + (n >> k & 63) for k in (12, 6, 0)])
    z = bytearray(z + b'\0\0\0\0')
    if rng.random() < .6: i = rng.randrange(4); z[i] = rng.choice([z[i] ^ (1 << rng.randrange(7)), 126, 62, 127, 63])
    b = g.alloc(len(z)); ctypes.memmove(b, bytes(z), len(z)); g.trace.append('prefix %r' % bytes(z))
    return [CP(b, CT('char')), n]
contract('_checkGraphOrder', [('b', 'buf'), ('n', 'int')], requires=lambda v, a: order(v, a) + [('four characters are readable', Le(4, v.b.len()))], prop=P, gen=gen_chk, ensures=chkorder_post)
def lowzero(x, k):
    """the k lowest bits of x (0 <= x) are zero, k in 0..6"""
    return And(*[Implies(Eq(k, j), lambda j=j: Eq(Mod(x, 1 << j), 0)) for j in range(1, 7)])
chars = lambda v, a: ('characters of the encoding', And(Le(tri(a.n), 12 * a.numChars), Lt(12 * a.numChars, tri(a.n) + 12)))
def valid_post(o, n, a, r):
    z = o.b; pad2 = 12 * a.numChars - tri(a.n)
    good = And(Eq(z.n, a.numChars), lambda: All(0, a.numChars, lambda i: dig(z.at(i)), pat=lambda i: [z.at(i)]), lambda: Implies(Lt(0, a.numChars), lambda: And(*[Implies(Eq(pad2, 2 * j), lambda j=j: Eq(Mod(z.at(a.numChars - 1) - 63, 1 << j), 0)) for j in range(1, 6)])))
    return [('accepted exactly if length, characters and padding are right', Iff(Eq(r, OK), good)), ('otherwise refused', Or(Eq(r, OK), Eq(r, NOTOK)))]
def gen_valid(g, rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13]); z = encode_body(n, {(i, j) for j in range(n) for i in range(j) if rng.random() < .5}); k = len(z); w = bytearray(z)
    y = rng.random()
    if y < .2 and k: w[rng.randrange(k)] = rng.choice([62, 63, 126, 127, 1, 200])
    elif y < .35 and k: w[-1] = min(126, w[-1] + rng.choice([1, 2, 4, 8]))
    elif y < .45: w += b'?'
    elif y < .55 and k: w = w[:-1]
    b = g.alloc(len(w) + 1); ctypes.memmove(b, bytes(w) + b'\0', len(w) + 1); g.trace.append('order %d encoding %r' % (n, bytes(w)))
    return [CP(b, CT('char')), n, k]
VE = '_validateGraphEncoding:'
contract('_validateGraphEncoding', [('b', 'cstr'), ('n', 'int'), ('numChars', 'int')], requires=lambda v, a: order(v, a) + [('string', v.b.wf), chars(v, a)], prop=P, gen=gen_valid, ensures=valid_post,
    loops={VE + '0': (lambda c: [('characters so far are in range', And(In(0, c.v('i'), c.X.args.numChars + 1), All(0, c.v('i'), lambda i: dig(c.X.old.b.at(i)), pat=lambda i: [c.X.old.b.at(i)])))], lambda c: c.X.args.numChars - c.v('i')),
           VE + '1': (lambda c: [('zero bits so far', And(Le(0, c.v('i'), c.v('expectedNumPaddingZeroes')), Eq(c.v('numPaddingZeroes'), c.v('i')), lowzero(c.v('finalByte'), c.v('i'))))], lambda c: c.v('expectedNumPaddingZeroes') - c.v('i'))})
# ---------------------------------------------------------------- independent codec
def encode_order(n): return bytes([63 + n]) if n < 63 else bytes([126] + [63 + (n >> k & 63) for k in (12, 6, 0)])
def encode_body(n, pairs):
    bits = [(i, j) in pairs for j in range(n) for i in range(j)]; bits += [0] * (-len(bits) % 6)
    return bytes(63 + sum(bits[k + i] << (5 - i) for i in range(6)) for k in range(0, len(bits), 6))
# ---------------------------------------------------------------- writer
WT = CT('struct', name='G6WriteIterator')
class G6W:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    def f(s, *p): return s.m.get(s.h, p)
    g = property(lambda s: GV(s.m, s.m.ptr(s.h, ('currGraph',))))
    N = property(lambda s: s.f('graphOrder')); no = property(lambda s: s.f('numCharsForGraphOrder')); ne = property(lambda s: s.f('numCharsForGraphEncoding')); size = property(lambda s: s.f('currGraphBuffSize'))
    buf = property(lambda s: s.m.ptr(s.h, ('currGraphBuff',))); offs = property(lambda s: s.m.ptr(s.h, ('columnOffsets',)))
    def at(s, i): return s.m.at(s.buf, (), i)
    def off(s, c): return s.m.at(s.offs, (), c)
    def begun(s):
        """what _beginG6WriteIteration() established"""
        N = s.N; g = s.g
        return [('supported order', Le(1, N, MAXN)), ('order of the graph', Eq(N, g.N)), ('characters of the order', Eq(s.no, Ite(Lt(N, 63), 1, 4))), ('characters of the encoding', And(Le(tri(N), 12 * s.ne), Lt(12 * s.ne, tri(N) + 12), Le(0, s.ne, 833325000))),
            ('buffer', And(Not(s.m.isnull(s.buf)), s.m.alive(s.buf), Eq(s.size, s.no + s.ne + 3), lambda: Le(s.size, s.m.length(s.buf)))),
            ('column offsets', And(Not(s.m.isnull(s.offs)), s.m.alive(s.offs), lambda: Lt(N, s.m.length(s.offs)))),
            ('offset of the first columns', And(Eq(s.off(0), 0), Eq(s.off(1), 0))),
            ('each column follows the previous one', All(1, N, lambda c: Eq(s.off(c + 1), s.off(c) + c), pat=lambda c: [s.off(c)])),
            ('all columns precede the end', And(Eq(2 * s.off(N), tri(N)), All(1, N + 1, lambda c: Le(0, s.off(c), s.off(N)), pat=lambda c: [s.off(c)])))]
    def used(s, x): return Ne(s.g.nbr(x), NIL)
    def q(s, x):
        """bit position of the pair joined by edge x"""
        a, b = s.g.nbr(x) - 1, s.g.nbr(Xor1(x)) - 1
        return Ite(Lt(a, b), lambda: s.off(b) + a, lambda: s.off(a) + b)
    def graph_ok(s):
        g = s.g
        return [x for x in g.shape() if x[0] in ('counts in range', 'arrays allocated', 'array extents', 'stacks')] + [('edges in use join two different vertices', All(2, g.bound, lambda e: Implies(s.used(e), g.prim(g.nbr(e)), g.prim(g.nbr(Xor1(e))), Ne(g.nbr(e), g.nbr(Xor1(e)))), pat=lambda e: [g.nbr(e)])),
            ('both halves of an edge are in use or neither', All(2, g.bound, lambda e: Iff(Eq(g.nbr(e), NIL), Eq(g.nbr(Xor1(e)), NIL)), pat=lambda e: [g.nbr(e)]))]
def even(x): return Eq(Mod(x, 2), 0)
def encoded(w, val, upto):
    """the characters (values val) state exactly the edges in use below upto"""
    return [('every edge has its bit set', All(2, upto, lambda x: Implies(And(even(x), w.used(x)), lambda: Bit(val(w.no + Div(w.q(x), 6)), 5 - Mod(w.q(x), 6))), pat=lambda x: [w.g.nbr(x)])),
        ('every bit set has its edge', All(w.no, w.no + w.ne, lambda j: And(*[Implies(Bit(val(j), b), lambda b=b: Exists(2, upto, lambda x: And(even(x), w.used(x), Eq(w.q(x), 6 * (j - w.no) + 5 - b)))) for b in range(6)]), pat=lambda j: [w.at(j)])),
        ('six bits per character', All(w.no, w.no + w.ne, lambda j: In(0, val(j), 64), pat=lambda j: [w.at(j)]))]
def prefix_of(w):
    ok, val, _ = prefix(lambda i: w.at(i))
    return And(ok, Eq(val, w.N), Iff(Eq(w.at(0), 126), Lt(62, w.N)))
class G6WKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, WT, single=True, kind='owned')
        st.mem[(b.id, ('currGraph',))] = KINDS['g'].make(X, st, tag + ':g')
        for f, k in (('currGraphBuff', 'char'), ('columnOffsets', 'long')):
            ln = t.var('%s:%s#len' % (tag, f)); st.assume(t.le(0, ln))
            st.mem[(b.id, (f,))] = Ptr(X.new_block(st, '%s:%s' % (tag, f), CT(k), ln, kind='owned'), 0)
        st.mem[(b.id, ('g6Output',))] = KINDS['sf'].make(X, st, tag + ':out')
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return G6W(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        for f in ('currGraphBuff', 'columnOffsets'):
            p = mem.st.mem.get((val.b.id, (f,)))
            if isinstance(p, Ptr) and p.b is not None: d[tag + ':' + f] = p.b
        p = mem.st.mem.get((val.b.id, ('currGraph',)))
        if isinstance(p, Ptr) and p.b is not None: d.update(KINDS['g'].blocks(mem, p, tag + ':g'))
        p = mem.st.mem.get((val.b.id, ('g6Output',)))
        if isinstance(p, Ptr) and p.b is not None: d.update(KINDS['sf'].blocks(mem, p, tag + ':out'))
        return d
    def cmake(s, g, rng, nm):
        from .gview import rgraph
        p = rgraph(g, rng, nm + ':g', virtual=False, maxn=rng.choice([3, 7, 12]))
        q = CP(g.alloc(8), CT('ptr', WT)); g.poke(q.addr, 'ptr', 0)
        if g.call('allocateG6WriteIterator', q, p) != OK: raise RuntimeError('allocateG6WriteIterator')
        w = CP(g.peek(q.addr, 'ptr'), WT); z = CP(g.alloc(8), CT('ptr', CT('char'))); g.poke(z.addr, 'ptr', 0)
        if g.call('beginG6WriteIterationToG6String', w, z) != OK: raise RuntimeError('begin')
        return w
KINDS['g6w'] = G6WKind()
NU = '_getNextInUseEdge:0'
def nu_inv(c):
    g = c.X.old.g; e = c.X.views_of(c.st).e.val
    return [('nothing skipped', And(Le(c.X.old.e.val, e), Lt(e, g.bound), even(e), All(c.X.old.e.val, e, lambda x: Implies(even(x), Eq(g.nbr(x), NIL)), pat=lambda x: [g.nbr(x)])))]
contract('_getNextInUseEdge', [('g', 'g'), ('e', 'pint'), ('u', 'pint'), ('v', 'pint')], modifies=['e', 'u', 'v'], prop=P,
    requires=lambda v, a: [x for x in v.g.shape() if x[0] in ('counts in range', 'arrays allocated', 'array extents', 'stacks')] + [('an edge location', And(Le(2, v.e.val), even(v.e.val)))],
    loops={NU: (nu_inv, lambda c: c.X.old.g.bound - c.X.views_of(c.st).e.val)},
    gen=lambda g, rng: gen_nu(g, rng),
    ensures=lambda o, n, a, r: [('OK', Eq(r, OK)), ('moves forward over locations not in use', And(Le(o.e.val, n.e.val), even(n.e.val), Le(n.e.val, Max(o.e.val, o.g.bound)), All(o.e.val, Min(n.e.val, o.g.bound), lambda x: Implies(even(x), Eq(o.g.nbr(x), NIL)), pat=lambda x: [o.g.nbr(x)]))),
        ('the edge found', Ite(Lt(n.e.val, o.g.bound), lambda: And(Ne(o.g.nbr(n.e.val), NIL), Eq(n.u.val, o.g.nbr(n.e.val)), Eq(n.v.val, o.g.nbr(Xor1(n.e.val)))), lambda: And(Eq(n.u.val, NIL), Eq(n.v.val, NIL))))])
def gen_nu(g, rng):
    p = KINDS['g'].cmake(g, rng, 'g'); e, u, v = [CP(g.alloc(4), CT('int')) for _ in range(3)]; g.poke(e.addr, 'int', 2 * rng.randint(1, 8)); return [p, e, u, v]
EN = '_encodeAdjMatAsG6:'
def enc_inv(c):
    w = c.X.views_of(c.st).w; o = c.X.old.w; e, u, v = c.v('e'), c.v('u'), c.v('v')
    return [('no failure', Eq(c.v('exitCode'), OK)), ('edge location', And(Le(2, e), even(e), Le(e, o.g.bound + 2))), ('current edge', Ite(Lt(e, o.g.bound), lambda: And(o.used(e), Eq(u, o.g.nbr(e)), Eq(v, o.g.nbr(Xor1(e)))), lambda: And(Eq(u, NIL), Eq(v, NIL)))),
        ('the order prefix', prefix_of(w)), ('rest is clear', All(w.no + w.ne, w.size, lambda j: Eq(w.at(j), 0), pat=lambda j: [w.at(j)]))] + encoded(w, w.at, Min(e, o.g.bound))
def fin_inv(c):
    w = c.X.views_of(c.st).w; o = c.X.old.w; i = c.v('i')
    return [('index', And(Le(w.no, i), Le(i, w.no + w.ne))), ('the order prefix', prefix_of(w)), ('rest is clear', All(w.no + w.ne, w.size, lambda j: Eq(w.at(j), 0), pat=lambda j: [w.at(j)]))] + encoded(w, lambda j: Ite(Lt(j, i), lambda: w.at(j) - 63, lambda: w.at(j)), o.g.bound)
contract('_encodeAdjMatAsG6', [('w', 'g6w')], modifies=['w:currGraphBuff'], prop=P, modular=False,
    requires=lambda v, a: v.w.begun() + v.w.graph_ok(), assume=lambda v, a: [('definition of bits: zero has none', All(0, 32, lambda b: Not(Bit(0, b))))] if spec.MODE == 'sym' else [],
    loops={EN + '1': (enc_inv, lambda c: c.X.old.w.g.bound + 2 - c.v('e')), EN + '2': (fin_inv, lambda c: c.X.old.w.no + c.X.old.w.ne - c.v('i'))},
    ensures=lambda o, n, a, r: [('OK', Eq(r, OK)), ('the order prefix', prefix_of(n.w)), ('terminated', Eq(n.w.at(n.w.no + n.w.ne), 0))] + encoded(n.w, lambda j: n.w.at(j) - 63, o.w.g.bound))
def parse(text, N0=0):
    """reference reader: list of (order, edges) followed by None when the input is malformed at that point"""
    z = text
    if z[:1] == b'>':
        if z[:10] != b'>>graph6<<': return [None]
        z = z[10:]
    def pre(z, strict=False):
        if not z: return None
        if z[0] == 126:
            d = z[1:4]
            if len(d) < 3 or d[0] == 126 or any(not 63 <= c <= 126 for c in d): return None
            n = (d[0] - 63) << 12 | (d[1] - 63) << 6 | d[2] - 63
            return None if n > MAXN or strict and n < 63 else (n, z[4:])
        return (z[0] - 63, z[1:]) if 63 <= z[0] < 126 else None
    p = pre(z)
    if p is None or p[0] < 1 or N0 and p[0] != N0: return [None]
    n, z = p; out = []; k = (n * (n - 1) // 2 + 5) // 6
    while True:
        if not z:
            if not out:
                if k: return [None]
                out.append((n, frozenset()))
            return out
        i = z.find(b'\n'); line, z = (z, b'') if i < 0 else (z[:i], z[i + 1:])
        if line.endswith(b'\r'): line = line[:-1]
        if line[:1] in (b':', b';', b'&'): return out + [None]
        if out:
            q = pre(line, True)
            if q is None or q[0] != n: return out + [None]
            line = q[1]
        if len(line) != k or any(not 63 <= c <= 126 for c in line): return out + [None]
        bits = [c - 63 >> (5 - b) & 1 for c in line for b in range(6)]; m = n * (n - 1) // 2
        if any(bits[m:]): return out + [None]
        out.append((n, frozenset(e for e, b in zip(((i, j) for j in range(n) for i in range(j)), bits) if b)))
RT = CT('struct', name='G6ReadIterator')
def pairs_of(g, p):
    gv = liveview(g, p); L = gv.L; out = []
    for e in range(2, gv.bound, 2):
        if gv.nbr(e) != NIL: out.append((min(gv.nbr(e), gv.nbr(e ^ 1)) - 1, max(gv.nbr(e), gv.nbr(e ^ 1)) - 1))
    if len(out) != gv.M or len(set(out)) != len(out): raise Violation('graph does not hold each edge once: M=%d %s' % (gv.M, out))
    d = sorted((v - 1, gv.nbr(e) - 1) for v in range(1, gv.N + 1) for e in L.d[v])
    if d != sorted([(a, b) for a, b in out] + [(b, a) for a, b in out]): raise Violation('adjacency lists differ from the edges')
    return frozenset(out)
def ppvar(g, v=0):
    q = CP(g.alloc(8), CT('ptr', CT('char'))); g.poke(q.addr, 'ptr', v); return q
def build(g, rng, n, es):
    from .gview import newgraph
    p = newgraph(g, n, rng.choice([None, max(2, 2 * len(es) + 4)])); g.tofree.append(('graph', p.addr)); l = list(es); rng.shuffle(l)
    junk = []
    for a, b in l:
        if rng.random() < .1:
            x, y = rng.randint(1, n), rng.randint(1, n)
            if x != y and g.call('gp_DynamicAddEdge', p, x, 0, y, 0) == OK: g.call('gp_DeleteEdge', p, liveview(g, p).last(x) if False else g.call('gp_GetNeighborEdgeRecord', p, x, y), 0)
        if rng.random() < .5: a, b = b, a
        if g.call('gp_DynamicAddEdge', p, a + 1, rng.randint(0, 1), b + 1, rng.randint(0, 1)) != OK: raise RuntimeError('cannot build')
    return p
def rnd_graph(rng, n):
    d = rng.choice([0, .1, .3, .5, .9, 1]) if n < 40 else rng.choice([0, .01, .1])
    return frozenset((i, j) for j in range(n) for i in range(j) if rng.random() < d)
def order_of(rng): return rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 61, 62, 63, 64, 70, rng.randint(1, 30)])
@scenario('g6_write', P)
def g6_write(g, rng, log):
    n = order_of(rng); es = rnd_graph(rng, n); p = build(g, rng, n, es); spec.setmode('conc')
    log({'order': n, 'edges': sorted(es)})
    expect = b'>>graph6<<' + encode_order(n) + encode_body(n, es)
    if rng.random() < .5:
        # string, with allocation failures
        fail = rng.randint(1, 7) if rng.random() < .6 else 0; live = g.counter('cdv_live').value
        q = ppvar(g); live += 1; g.counter('cdv_count').value = 0; g.counter('cdv_failed').value = 0; g.counter('cdv_fail_at').value = fail
        r = g.call('_WriteGraphToG6String', p, q); g.counter('cdv_fail_at').value = 0
        z = g.peek(q.addr, 'ptr')
        if r == OK:
            if not z: raise Violation('OK without a string')
            if ctypes.string_at(z) != expect: raise Violation('wrote %r instead of %r' % (ctypes.string_at(z), expect))
        elif not g.counter('cdv_failed').value: raise Violation('writing failed without an allocation failure')
        if z:
            if not g.owned(z): raise Violation('a freed string is handed out')
            g.lib.cdv_free(z)
        if g.counter('cdv_live').value != live: raise Violation('memory leak of %d blocks' % (g.counter('cdv_live').value - live))
    else:
        d = tempfile.mkdtemp(prefix='cdvg')
        try:
            fn = os.path.join(d, 'x.g6')
            if rng.random() < .5:
                if g.call('_WriteGraphToG6FilePath', p, g.cstr(fn)) != OK: raise Violation('writing to a path failed')
                if open(fn, 'rb').read() != expect: raise Violation('file has %r instead of %r' % (open(fn, 'rb').read(), expect))
            else:
                # several graphs through one iterator
                q = ppvar(g)
                if g.call('allocateG6WriteIterator', q, p) != OK: raise Violation('allocate')
                w = CP(g.peek(q.addr, 'ptr'), WT)
                if g.call('beginG6WriteIterationToG6FilePath', w, g.cstr(fn)) != OK: raise Violation('begin')
                lines = []; k = rng.randint(1, 3)
                for i in range(k):
                    if i:
                        g.call('gp_ReinitializeGraph', p); es = rnd_graph(rng, n)
                        for a, b in es: g.call('gp_DynamicAddEdge', p, a + 1, 0, b + 1, 0)
                    log({'order': n, 'graph': i, 'edges': sorted(es)})
                    if g.call('writeGraphUsingG6WriteIterator', w) != OK: raise Violation('write failed')
                    lines.append(encode_order(n) + encode_body(n, es))
                c = CP(g.alloc(4), CT('int')); g.call('getNumGraphsWritten', w, c)
                if g.peek(c.addr, 'int') != k: raise Violation('number of graphs written is %d instead of %d' % (g.peek(c.addr, 'int'), k))
                if g.call('endG6WriteIteration', w) != OK or g.call('freeG6WriteIterator', q) != OK or g.peek(q.addr, 'ptr'): raise Violation('end/free')
                z = open(fn, 'rb').read()
                if z.split(b'\n') != (b'>>graph6<<' + b'\n'.join(lines)).split(b'\n'): raise Violation('file has %r' % z)
        finally: import shutil; shutil.rmtree(d)
def g6text(rng):
    n = order_of(rng); gs = [rnd_graph(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]; nl = rng.choice([b'\n', b'\n', b'\r\n'])
    z = nl.join(encode_order(n) + encode_body(n, e) for e in gs) + rng.choice([b'', nl]); z = rng.choice([b'>>graph6<<', b'']) + z
    x = rng.random()
    if x < .5:
        z = bytearray(z)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['set', 'del', 'ins', 'cut', 'blank'])
            i = rng.choice([rng.randrange(len(z) + 1), rng.randint(0, min(len(z), 5)), min(len(z), 10 + rng.randint(0, 4))])
            c = rng.choice([62, 63, 64, 126, 127, 126, 58, 59, 38, 200, 255, 33, 95])
            if k == 'set' and i < len(z): z[i] = c
            elif k == 'del' and i < len(z): del z[i]
            elif k == 'ins': z.insert(i, c)
            elif k == 'cut': del z[i:]
            elif k == 'blank': z.insert(len(z), 10)
        z = bytes(z)
    return z
def graph_for(g, rng, n):
    from .gview import newgraph
    if n and rng.random() < .3:
        p = newgraph(g, n)
        for _ in range(rng.randint(0, 3)): g.call('gp_AddEdge', p, rng.randint(1, n), 0, rng.randint(1, n), 0)
    else: p = CP(g.call('gp_New'), CT('struct', name='baseGraphStructure'))
    g.tofree.append(('graph', p.addr)); spec.setmode('conc')
    return p
@scenario('g6_read', P)
def g6_read(g, rng, log):
    z = g6text(rng)
    if z.rstrip(b'\n').endswith(b'\r') and z.count(b'\r') and b'\r\n' not in z: z = z.replace(b'\r', b'')
    import re as _re
    z = _re.sub(rb'\r(?!\n)', b'', z)
    n0 = rng.choice([0, 0, 3, 5]); ref = parse(z); N = ref[0][0] if ref[0] else n0
    p = graph_for(g, rng, N); N0 = g.field(p, 'N'); ref = parse(z, N0)
    if not ref[0] and len(z) > 4 and b'~' in z and max((q[0] for q in [parse(z)[0]] if q), default=0) > 2000: return
    log({'input': repr(z), 'order of the graph passed in': N0})
    mode = rng.choice(['string', 'file', 'iter', 'iterfile'])
    d = tempfile.mkdtemp(prefix='cdvg')
    try:
        fn = os.path.join(d, 'x.g6'); open(fn, 'wb').write(z)
        big = has_big(z)
        if big: return
        if mode in ('string', 'file'):
            fail = rng.randint(1, 12) if rng.random() < .4 else 0; s_ = g.lib.cdv_malloc(len(z) + 1); ctypes.memmove(s_, z + b'\0', len(z) + 1); path = g.cstr(fn)
            g.counter('cdv_count').value = 0; g.counter('cdv_failed').value = 0; g.counter('cdv_fail_at').value = fail
            r = g.call('_ReadGraphFromG6String', p, s_) if mode == 'string' else g.call('_ReadGraphFromG6FilePath', p, path)
            g.counter('cdv_fail_at').value = 0; failed = g.counter('cdv_failed').value
            if mode == 'string':
                if g.owned(s_): g.lib.cdv_free(s_); raise Violation('the input string is leaked (result %d)' % r)
            else: g.lib.cdv_free(s_)
            if r == OK:
                if ref[0] is None: raise Violation('malformed input is accepted as a graph with %d vertices' % g.field(p, 'N'))
                if (g.field(p, 'N'), pairs_of(g, p)) != ref[0]: raise Violation('read %r instead of %r' % ((g.field(p, 'N'), sorted(pairs_of(g, p))), ref[0]))
            elif ref[0] is not None and not failed: raise Violation('well-formed input is refused')
            return
        q = ppvar(g)
        if g.call('allocateG6ReadIterator', q, p) != OK: raise Violation('allocate')
        it = CP(g.peek(q.addr, 'ptr'), RT)
        if mode == 'iter':
            s_ = g.lib.cdv_malloc(len(z) + 1); ctypes.memmove(s_, z + b'\0', len(z) + 1); r = g.call('beginG6ReadIterationFromG6String', it, s_) if z else NOTOK
            if not z: g.lib.cdv_free(s_)
        else: r = g.call('beginG6ReadIterationFromG6FilePath', it, g.cstr(fn))
        got = []
        while r == OK and len(got) <= len(ref):
            r = g.call('readGraphUsingG6ReadIterator', it)
            if r == OK:
                if not g.field(it, 'currGraph'): break
                got.append((g.field(p, 'N'), pairs_of(g, p)))
                c = CP(g.alloc(4), CT('int')); g.call('getNumGraphsRead', it, c)
                if g.peek(c.addr, 'int') != len(got): raise Violation('graph count')
        if r != OK: got.append(None)
        if got != ref: raise Violation('reading gave %r instead of %r' % ([x and (x[0], sorted(x[1])) for x in got], [x and (x[0], sorted(x[1])) for x in ref]))
        g.call('endG6ReadIteration', it); g.call('freeG6ReadIterator', q)
        if g.peek(q.addr, 'ptr'): raise Violation('freeing keeps the iterator')
    finally: import shutil; shutil.rmtree(d)
def has_big(z):
    """skip inputs whose order prefix denotes a huge graph (memory)"""
    y = z[10:] if z[:1] == b'>' else z
    return len(y) > 3 and y[0] == 126 and ((y[1] - 63) << 12 | (y[2] - 63 & 63) << 6) > 1500
@scenario('g6_null', P)
def g6_null(g, rng, log):
    """no usable graph is refused; nothing is leaked"""
    live = g.counter('cdv_live').value; q = ppvar(g)
    for f in ('allocateG6ReadIterator', 'allocateG6WriteIterator'):
        if g.call(f, q, 0) != NOTOK or g.peek(q.addr, 'ptr'): raise Violation(f + ' without a graph')
    p = CP(g.call('gp_New'), CT('struct', name='baseGraphStructure')); g.tofree.append(('graph', p.addr))
    if g.call('allocateG6WriteIterator', q, p) != NOTOK or g.peek(q.addr, 'ptr'): raise Violation('allocateG6WriteIterator without vertices')
    if g.call('_WriteGraphToG6String', p, q) != NOTOK or g.peek(q.addr, 'ptr'): raise Violation('writing a graph without vertices')
