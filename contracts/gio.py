"""Adjacency list / adjacency matrix / LEDA text (C18).  Oracle: the text is computed from (and parsed into) plain Python
lists of directed arcs, independently of the library."""
import ctypes, os, re, shutil, tempfile
from .gview import *
from .gview import GV, liveview, newgraph, GP, rgraph, OK, NOTOK, NIL, scenario
from cdv.conc import CP, Violation, Reject
P = 'C18'
INONLY, OUTONLY = 32, 64
ZERO = 0x08
def zflag(g):
    return ZERO
MODE_LIST, MODE_MATRIX = 1, 2
def arcs_of(g, p):
    """per vertex the (neighbor, direction flag) sequence"""
    gv = liveview(g, p)
    return {v: [(gv.nbr(e), gv.ef(e) & 96) for e in gv.L.d[v]] for v in range(1, gv.N + 1)}
def out_text(A, N, zero):
    o = 1 if zero else 0; z = 'N=%d\n' % N
    for v in range(1, N + 1): z += '%d:%s %d\n' % (v - o, ''.join(' %d' % (w - o) for w, d in reversed(A[v]) if d != INONLY), -1 if zero else 0)
    return z
def matrix_text(A, N):
    if any(d == INONLY for v in A for w, d in A[v]): return None
    z = '%d\n' % N
    for v in range(1, N + 1):
        s = set(w for w, d in A[v])
        z += ' ' * v + ''.join('1' if w in s else '0' for w in range(v + 1, N + 1)) + '\n'
    return z
class Bad(Exception): pass
class Scan:
    def __init__(s, z): s.z = z; s.p = 0
    def ws(s):
        while s.p < len(s.z) and s.z[s.p] in ' \t\n\r\v\f': s.p += 1
    def num(s, width=None):
        s.ws(); m = re.compile(r'[+-]?\d+').match(s.z, s.p) if width is None else re.compile(r'\d').match(s.z, s.p)
        if not m: raise Bad('number expected')
        s.p = m.end(); return int(m.group())
    def char(s):
        if s.p >= len(s.z): raise Bad('text ends')
        s.p += 1
def read_list(z):
    """reference reader: (N, zero based, {v: [(w, direction)] first..last})"""
    s = Scan(z); s.char(); s.char(); N = s.num(); s.ws()
    if N < 1: raise Bad('order')
    A = {v: [] for v in range(1, N + 1)}; zero = False
    for v in range(1, N + 1):
        i = s.num()
        if i == 0 and v == 1: zero = True
        if i + zero != v: raise Bad('vertex out of order')
        s.char(); old = A[v]; A[v] = []; used = {w: k for k, (w, d) in enumerate(old)}; gone = set()
        while True:
            w = s.num() + zero; s.ws()
            if w < 1: break
            if w > N or w == v: raise Bad('neighbor')
            if w > v: A[v].insert(0, (w, 0)); A[w].insert(0, (v, 0))
            elif w in used: gone.add(used.pop(w)); A[v].insert(0, (w, 0))
            else: A[v].insert(0, (w, OUTONLY)); A[w].insert(0, (v, INONLY))
        for k, (w, d) in enumerate(old):
            if k in gone: continue
            A[v].insert(0, (w, INONLY))
            j = A[w].index((v, 0)); A[w][j] = (v, OUTONLY)
    return N, zero, A, s.z[s.p:]
def read_matrix(z):
    s = Scan(z); N = s.num(); s.ws()
    if N < 1: raise Bad('order')
    A = {v: [] for v in range(1, N + 1)}
    for v in range(1, N + 1):
        for w in range(v + 1, N + 1):
            if s.num(1): A[v].insert(0, (w, 0)); A[w].insert(0, (v, 0))
    s.ws()
    return N, False, A, s.z[s.p:]
def read_leda(z):
    l = z.split('\n')
    if l[-1] == '': l.pop()
    def num(i, k):
        if i >= len(l): raise Bad('text ends')
        s = Scan(l[i]); return [s.num() for _ in range(k)]
    N, = num(3, 1)
    if N < 1: raise Bad('order')
    if 4 + N > len(l): raise Bad('text ends')
    M, = num(4 + N, 1); A = {v: [] for v in range(1, N + 1)}
    for m in range(M):
        u, v = num(5 + N + m, 2)
        if not (1 <= u <= N and 1 <= v <= N): raise Bad('vertex')
        if u != v and (v, 0) not in A[u]: A[u].insert(0, (v, 0)); A[v].insert(0, (u, 0))
    return N, False, A, ''
def ppvar(g, v=0):
    q = CP(g.alloc(8), CT('ptr', CT('char'))); g.poke(q.addr, 'ptr', v); return q
def stored(g, p):
    gv = liveview(g, p)
    for x in gv.wf():
        if not x[1]: raise Violation('stored graph: ' + x[0])
def failing(g, rng, p=.3, hi=12):
    g.counter('cdv_count').value = 0; g.counter('cdv_failed').value = 0; f = rng.randint(1, hi) if rng.random() < p else 0; g.counter('cdv_fail_at').value = f
    return f
def nofail(g): g.counter('cdv_fail_at').value = 0; return g.counter('cdv_failed').value
def fresh(g):
    p = GP(g.call('gp_New')); g.tofree.append(('graph', p.addr)); return p
def shape(A, multi=True): return {v: sorted(l) for v, l in A.items()}
def check_read(g, rng, p, z, ref, mode, d, log):
    """offer text z to the reader named by mode; ref = expected (N, zero, A, rest) or None for rejection"""
    if mode == 'string':
        s_ = g.lib.cdv_malloc(len(z) + 1); ctypes.memmove(s_, z.encode('latin1') + b'\0', len(z) + 1)
    else:
        fn = os.path.join(d, 'in.txt'); open(fn, 'w', newline='').write(z); path = g.cstr(fn)
    live = g.counter('cdv_live').value; failing(g, rng, .25)
    r = g.call('gp_ReadFromString', p, s_) if mode == 'string' else g.call('gp_Read', p, path)
    failed = nofail(g); spec.setmode('conc')
    if mode == 'string' and g.owned(s_): g.lib.cdv_free(s_); raise Violation('the input string is not consumed (result %d)' % r)
    if r == OK:
        if ref is None: raise Violation('malformed text is accepted')
        N, zero, A, rest = ref; stored(g, p)
        if g.field(p, 'N') != N: raise Violation('order %d instead of %d' % (g.field(p, 'N'), N))
        got = arcs_of(g, p)
        if got != A: raise Violation('adjacency read %s instead of %s' % (got, A))
        if bool(g.field(p, 'internalFlags') & ZERO) != zero: raise Violation('zero-based flag')
        if [liveview(g, p).index(v) for v in range(1, N + 1)] != list(range(1, N + 1)): pass
    elif ref is not None and not failed: raise Violation('well-formed text is refused (result %d)' % r)
    return r
def io_graph(g, rng):
    p = rgraph(g, rng, 'g', simple=True, virtual=False, maxn=rng.choice([4, 8, 14]), flags=False)
    if rng.random() < .3: g.setfield(p, ('internalFlags',), g.field(p, 'internalFlags') | ZERO)
    return p
@scenario('text_write', P)
def text_write(g, rng, log):
    p = io_graph(g, rng); spec.setmode('conc'); A = arcs_of(g, p); N = g.field(p, 'N'); zero = bool(g.field(p, 'internalFlags') & ZERO)
    mode = rng.choice([MODE_LIST, MODE_LIST, MODE_MATRIX, MODE_MATRIX, 99]); how = rng.choice(['string', 'file']) if mode != 99 else 'string'
    log({'trace': g.trace, 'zero based': zero, 'format': mode, 'to': how})
    ref = out_text(A, N, zero) if mode == MODE_LIST else matrix_text(A, N) if mode == MODE_MATRIX else None
    d = tempfile.mkdtemp(prefix='cdvt')
    try:
        if how == 'string':
            q = ppvar(g); live = g.counter('cdv_live').value; failing(g, rng, .4, 8)
            r = g.call('gp_WriteToString', p, q, mode); failed = nofail(g); a = g.peek(q.addr, 'ptr')
            z = ctypes.string_at(a).decode('latin1') if a else None
            if a:
                if not g.owned(a): raise Violation('a freed string is handed out')
                g.lib.cdv_free(a)
            if r == OK and z is None: raise Violation('success without a string')
            if g.counter('cdv_live').value != live: raise Violation('storage is leaked by writing (result %d)' % r)
            if r != OK and ref is not None and not failed: raise Violation('writing fails')
        else:
            fn = os.path.join(d, 'o.txt'); path = g.cstr(fn); live = g.counter('cdv_live').value; failing(g, rng, .2, 3)
            r = g.call('gp_Write', p, path, mode); failed = nofail(g)
            if g.counter('cdv_live').value != live: raise Violation('storage is leaked by writing (result %d)' % r)
            z = open(fn, newline='').read() if r == OK else None
            if r != OK and ref is not None and not failed: raise Violation('writing fails')
        if r == OK:
            if ref is None: raise Violation('a graph that the format cannot express is written')
            if z != ref: raise Violation('wrote %r instead of %r' % (z, ref))
            if arcs_of(g, p) != A: raise Violation('writing changes the graph')
            h = fresh(g); back = (read_list if mode == MODE_LIST else read_matrix)(ref)
            if mode == MODE_LIST and (back[2] != A and shape(back[2]) != shape(A)) : raise Violation('reference reader differs from writer')
            if mode == MODE_MATRIX and {v: set(w for w, _ in l) for v, l in back[2].items()} != {v: set(w for w, _ in l) for v, l in A.items()}: raise Violation('reference matrix')
            check_read(g, rng, h, ref, back, rng.choice(['string', 'file']), d, log)
    finally: shutil.rmtree(d)
def rnd_text(rng):
    kind = rng.choice(['list', 'list', 'matrix', 'leda']); N = rng.choice([1, 1, 2, 3, 4, 5, 6, 9]); W = lambda: rng.choice([' ', ' ', '  ', '\t', '\n'])
    if kind == 'list':
        zero = rng.random() < .4; o = 1 if zero else 0; und = rng.random() < .6; E = set()
        for a in range(1, N + 1):
            for b in range(1, N + 1):
                if a != b and rng.random() < .35:
                    E.add((a, b))
                    if und: E.add((b, a))
        z = 'N=%s%d\n' % (rng.choice(['', ' ']), N)
        for v in range(1, N + 1):
            l = [b - o for a, b in E if a == v]; l.sort(); rng.shuffle(l)
            z += '%d:%s%s%d\n' % (v - o, ''.join(rng.choice([' ', ' ', ' ', '  ', '\n']) + str(x) for x in l), ' ', -1 if zero else rng.choice([0, 0, 0, -1]))
    elif kind == 'matrix':
        z = '%d\n' % N; sep = rng.choice(['', '', ' '])
        for v in range(1, N): z += ' ' * rng.choice([0, v]) + sep.join(rng.choice('01') for w in range(v + 1, N + 1)) + '\n'
        if rng.random() < .5: z += ' ' * N + '\n'
        if rng.random() < .2: z = z.rstrip('\n ')
        if N == 1 and rng.random() < .5: z = '1'
    else:
        E = [(rng.randint(1, N), rng.randint(1, N)) for _ in range(rng.randint(0, 2 * N))]
        z = 'LEDA.GRAPH\nstring\nint\n%d\n' % N + ''.join('|{v%d}|\n' % v for v in range(1, N + 1)) + '%d\n' % len(E) + ''.join('%d %d 0 |{}|\n' % e for e in E)
    if rng.random() < .5:
        z = list(z)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['set', 'del', 'ins', 'cut', 'cut', 'tok']); i = rng.randrange(len(z) + 1); c = rng.choice(list('0123459- \n:x=N') + ['\n', ' '])
            if k == 'set' and i < len(z): z[i] = c
            elif k == 'del' and i < len(z): del z[i]
            elif k == 'ins': z.insert(i, c)
            elif k == 'cut': del z[i:]
            elif k == 'tok': z.insert(i, str(rng.randint(0, N + 2)) + ' ')
        z = ''.join(z)
    return z
@scenario('text_read', P)
def text_read(g, rng, log):
    z = rnd_text(rng)
    if max([len(x) for x in re.findall(r'\d+', z) or ['']]) > 3 and not z[:1].isdigit(): raise Reject('huge number')
    m = re.match(r'\s*(\d+)', z)
    if m and len(m.group(1)) > 3: raise Reject('huge number')
    mode = rng.choice(['string', 'file'])
    if z == '' or not (z.startswith('N=') or z[0].isdigit() or z.startswith('LEDA.GRAPH')):
        if z[:1] not in ('', ' ', '\n', 'x'): raise Reject('not one of these formats')
        ref = None
    else:
        try: ref = (read_list if z[0] == 'N' else read_matrix if z[0].isdigit() else read_leda)(z)
        except Bad: ref = None
        if z[0] == 'L' and mode == 'string': ref = None
        if z[0] == 'L' and re.search(r'\n[^\n]{250,}', z): raise Reject('long line')
    if ref and max((len(l) - len(set(w for w, _ in l)) for l in ref[2].values()), default=0) > 0: 
        raise Reject('parallel edges')
    p = fresh(g); log({'text': z, 'from': mode, 'expected': 'rejected' if ref is None else str(ref)})
    d = tempfile.mkdtemp(prefix='cdvt')
    try: check_read(g, rng, p, z, ref, mode, d, log)
    finally: shutil.rmtree(d)
@scenario('text_null', P)
def text_null(g, rng, log):
    """bad parameters are refused and nothing is leaked"""
    p = fresh(g); live = g.counter('cdv_live').value
    if g.call('gp_ReadFromString', p, 0) != NOTOK: raise Violation('NULL text is accepted')
    if g.call('gp_Read', p, 0) != NOTOK: raise Violation('NULL file name is accepted')
    s_ = g.lib.cdv_malloc(8); ctypes.memmove(s_, b'N=1\n1: 0'[:7] + b'\0', 8)
    if g.call('gp_ReadFromString', 0, s_) != NOTOK: raise Violation('NULL graph is accepted')
    if g.owned(s_): raise Violation('the input string is not consumed')
    if g.counter('cdv_live').value != live: raise Violation('leak')
    q = ppvar(g)
    for f in ((0, q, 1), (p, 0, 1), (0, 0, 2)):
        if g.call('gp_WriteToString', *f) != NOTOK: raise Violation('missing parameter is accepted')
    if g.call('_WriteAdjList', 0, 0, 0) != NOTOK or g.call('_WriteAdjMatrix', 0, 0, 0) != NOTOK or g.call('_ReadAdjList', p, 0, 0) != NOTOK or g.call('_ReadAdjMatrix', p, 0, 0) != NOTOK: raise Violation('missing parameter is accepted')
