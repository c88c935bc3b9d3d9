"""Random graph generators (C16): the range of the random numbers under contract; the generators on the real code with a random
source of our own (extreme, repeating and ordinary outcomes), judged by a reference (bounded)."""
import ctypes
from . import oracle as O
from .gview import *
from .gview import GV, liveview, newgraph, GP, OK, NOTOK, NIL, NONEMB, scenario
from cdv.conc import CP, Violation, Reject
P = 'C16'
contract('_GetRandomNumber', [('NMin', 'int'), ('NMax', 'int')], prop=P, modular=False, requires=lambda v, a: [('range', And(Le(0, a.NMin), Le(-1, a.NMax), Le(a.NMax, 2**31 - 2)))],
    gen=lambda g, rng: source(g, rng) or (lambda a: [a, a + rng.choice([-1, 0, 1, 2, 7, 2**20, 2**30])])(rng.choice([0, 1, 2, 5, 1000, 2**29])),
    ensures=lambda o, n, a, r: [('not below the minimum', Le(a.NMin, r)), ('not above the maximum', Le(r, Max(a.NMin, a.NMax))), ('an empty range gives the minimum', Implies(Lt(a.NMax, a.NMin), Eq(r, a.NMin)))])
EXT = [0, 1, 2, 3, 0x7fffffff, 0x7ffffffe, 0xffff, 0x10000, 0xff00, 0x7fff0000, 0x7ffffff, 0x8000000, 0x7fffff, 12345]
def source(g, rng):
    """what rand() will return"""
    l = ctypes.c_int * 4096; A = l.in_dll(g.lib, 'cdv_rlist'); k = rng.random()
    n = rng.choice([0, 1, 3, 10, 40, 200])
    xs = [rng.choice(EXT) for _ in range(n)] if k < .4 else [rng.choice(EXT)] * n if k < .7 else [rng.randint(0, 0x7fffffff) for _ in range(n)] if k < .85 else [i * rng.choice([1, 7, 1 << 16]) & 0x7fffffff for i in range(n)]
    for i, x in enumerate(xs): A[i] = x
    ctypes.c_int.in_dll(g.lib, 'cdv_rlen').value = n; ctypes.c_int.in_dll(g.lib, 'cdv_rpos').value = 0
    ctypes.c_ulong.in_dll(g.lib, 'cdv_rstate').value = rng.getrandbits(60); g.counter('cdv_rcount').value = 0; g.counter('cdv_rlimit').value = 0
    g.rl = xs; return None
@scenario('random_graph', P)
def random_graph(g, rng, log):
    N = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 40, 100]); ex = rng.random() < .7; full = N * (N - 1) // 2
    p = newgraph(g, N); cap = rng.choice([0, 0, 0, full, full + 3, full // 2])
    if cap and g.call('gp_EnsureArcCapacity', p, 2 * cap) != OK: raise Reject('capacity')
    C = g.field(p, 'arcCapacity') // 2; want = rng.choice([0, 1, N - 2, N - 1, N, 3 * N - 7, 3 * N - 6, 3 * N - 5, 3 * N - 6, full, full - 1, full + 5, C, C + 1, -3, 2**31 - 1, -2**31, rng.randint(0, full), rng.randint(0, 3 * N)])
    if N > 40 and min(want, full) > 600: raise Reject('slow')
    if not ex and N > 40 and C > 1000: raise Reject('slow')
    source(g, rng); log({'order': N, 'edges asked': want if ex else None, 'edge capacity': C, 'random source': g.rl[:60]})
    if rng.random() < .2:
        # a graph used before
        g.call('gp_CreateRandomGraph', p); g.call('gp_ReinitializeGraph', p); source(g, rng)
    again = rng.random() < .15; g.counter('cdv_rlimit').value = 20000000
    pos0 = [list(g.rl), ctypes.c_ulong.in_dll(g.lib, 'cdv_rstate').value]
    r = g.call('gp_CreateRandomGraphEx', p, want) if ex else g.call('gp_CreateRandomGraph', p)
    if r != OK: raise Violation('result %d' % r)
    spec.setmode('conc'); gv = liveview(g, p)
    for x in gv.wf():
        if not x[1]: raise Violation('graph: ' + x[0])
    if gv.N != N: raise Violation('order %d' % gv.N)
    l = sorted((v, int(gv.nbr(e))) for v in range(1, N + 1) for e in gv.L.d[v]); es = [x for x in l if x[0] < x[1]]
    for v in range(N + 1, 2 * N + 1):
        if gv.L.d[v]: raise Violation('edges at a virtual vertex')
    if any(a == b for a, b in l) or any(not 1 <= b <= N for a, b in l): raise Violation('loop or vertex out of range')
    if len(set(es)) != len(es): raise Violation('the graph is not simple: %s' % es)
    if 2 * len(es) != len(l) or g.field(p, 'M') != len(es): raise Violation('edge count')
    if any(gv.dirbits(e) for v in range(1, N + 1) for e in gv.L.d[v]) if hasattr(gv, 'dirbits') else False: raise Violation('directed edge')
    A = O.norm(N, es)
    if len(O.components(A)) != 1: raise Violation('not connected')
    if ex:
        m = max(N - 1, min(want, C, full))
        if len(es) != m: raise Violation('%d edges instead of %d' % (len(es), m))
        if len(es) <= max(3 * N - 6, N - 1) and N <= 40 and not O.planar(A): raise Violation('not planar although it has only %d edges' % len(es))
    elif len(es) > min(C, full) or len(es) < N - 1: raise Violation('%d edges' % len(es))
    for v in range(1, N + 1):
        if g.field(p, 'N') and g.call('gp_GetVertexParent' if False else 'gp_GetVertexDegree', p, v) != len(A[v]): raise Violation('degree')
    if again and ex:
        q = newgraph(g, N)
        if cap: g.call('gp_EnsureArcCapacity', q, 2 * cap)
        if g.field(q, 'arcCapacity') != 2 * C: return
        T = (ctypes.c_int * 4096).in_dll(g.lib, 'cdv_rlist')
        for i, x in enumerate(pos0[0]): T[i] = x
        ctypes.c_int.in_dll(g.lib, 'cdv_rpos').value = 0; ctypes.c_ulong.in_dll(g.lib, 'cdv_rstate').value = pos0[1]
        g.call('gp_CreateRandomGraphEx', q, want); gw = liveview(g, q)
        if sorted((v, int(gw.nbr(e))) for v in range(1, N + 1) for e in gw.L.d[v]) != l: raise Violation('the result does not only depend on the random source')
    g.counter('cdv_rlimit').value = 0
