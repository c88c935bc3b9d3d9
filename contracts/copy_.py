"""Contracts of graphUtils.c: copying and duplicating graphs (C15)"""
from .life import *
P = 'C15'
VIF = ('parent', 'leastAncestor', 'lowpoint', 'visitedInfo', 'pertinentEdge', 'pertinentRoots', 'futurePertinentChild', 'sortedDFSChildList', 'fwdArcList')
def sameV(d, s, lo, hi): return All(lo, hi, lambda v: And(Eq(d.first(v), s.first(v)), Eq(d.last(v), s.last(v)), Eq(d.index(v), s.index(v)), Eq(d.vf(v), s.vf(v))), pat=lambda v: [d.first(v)])
def sameX(d, s, lo, hi): return All(lo, hi, lambda v: And(Eq(d.ext(v, 0), s.ext(v, 0)), Eq(d.ext(v, 1), s.ext(v, 1))), pat=lambda v: [d.ext(v, 0)])
def sameVI(d, s, lo, hi): return All(lo, hi, lambda v: And(*[Eq(d.vi(v, k), s.vi(v, k)) for k in VIF]), pat=lambda v: [d.vi(v, 'parent')])
def sameER(d, s, lo, hi): return All(lo, hi, lambda e: And(Eq(d.nbr(e), s.nbr(e)), Eq(d.ef(e), s.ef(e)), Eq(d.next(e), s.next(e)), Eq(d.prev(e), s.prev(e))), pat=lambda e: [d.nbr(e)])
def sameLC(d, s): return And(Eq(d.N, s.N), All(0, s.N, lambda x: And(Eq(d.next(x), s.next(x)), Eq(d.prev(x), s.prev(x))), pat=lambda x: [d.next(x)]))
ICF = ('minorType', 'v', 'r', 'x', 'y', 'w', 'px', 'py', 'z', 'ux', 'dx', 'uy', 'dy', 'dw', 'uz', 'dz')
def sameall(d, s):
    return [('same order, size and flags', And(Eq(d.N, s.N), Eq(d.NV, s.NV), Eq(d.M, s.M), Eq(d.iflags, s.iflags), Eq(d.eflags, s.eflags))), ('same vertex records', sameV(d, s, 1, 1 + 2 * s.N)), ('same vertex information', sameVI(d, s, 1, 1 + s.N)),
        ('same external face links', sameX(d, s, 1, 1 + 2 * s.N)), ('same edge records', sameER(d, s, 2, 2 + s.cap)), ('same free edge slots', samestack(s.holes, d.holes)), ('same stack', samestack(s.stk, d.stk)),
        ('same list collections', And(sameLC(d.brl, s.brl), sameLC(d.sdl, s.sdl))), ('same isolator context', And(*[Eq(d.f('IC', k), s.f('IC', k)) for k in ICF]))]
def DV(c): return c.X.views_of(c.st)
def cp_ghost(d, s):
    if spec.MODE != 'sym': return
    for nm, ar in GHOSTS:
        d.m.ghostset(d.h, nm, lambda *i, nm=nm: s.m.ghost(s.h, nm, *i))
DALL = ['d'] + ['d:' + x for x in SUB] + ['d:E', 'd:V', 'd:VI', 'd:extFace', 'd:BicompRootLists', 'd:sortedDFSChildLists', 'd:theStack', 'd:edgeHoles']
CL = {'gp_CopyGraph:0': (lambda c: [Le(1, c.v("v"), 1 + DV(c).s.N), sameV(DV(c).d, DV(c).s, 1, c.v("v")), sameVI(DV(c).d, DV(c).s, 1, c.v("v")), sameX(DV(c).d, DV(c).s, 1, c.v("v"))], lambda c: 1 + DV(c).s.N - c.v("v")),
    'gp_CopyGraph:1': (lambda c: [Le(1 + DV(c).s.N, c.v("v"), 1 + 2 * DV(c).s.N), sameV(DV(c).d, DV(c).s, 1, c.v("v")), sameX(DV(c).d, DV(c).s, 1, c.v("v"))], lambda c: 1 + 2 * DV(c).s.N - c.v("v")),
    'gp_CopyGraph:2': (lambda c: [Le(2, c.e, c.Esize), sameER(DV(c).d, DV(c).s, 2, c.e)], lambda c: c.Esize - c.e),
    'gp_CopyGraph:3': (lambda c: [Le(2 + DV(c).s.cap, c.e, 2 + DV(c).d.cap), sameER(DV(c).d, DV(c).s, 2, 2 + DV(c).s.cap), clearE(DV(c).d, 2 + DV(c).s.cap, c.e)], lambda c: 2 + DV(c).d.cap - c.e)}
grow_inv_d = lambda c: [Le(c.Esize, c.e, c.newEsize)]
CL['_EnsureArcCapacity:0'] = (grow_inv_d, lambda c: c.newEsize - c.e)
def copy_gen(g, rng):
    s = rgraph(g, rng, 's', loops=True); N = g.gN
    scramble(g, rng, s)
    tr = g.trace; arcs = g.garcs
    while True:
        d = rgraph(g, rng, 'd', minn=N, maxn=N if rng.random() < .9 else N + 1)
        return [d, s]
def scramble(g, rng, p):
    """arbitrary values in vertex information, external face links, list collections, flags"""
    N = g.gN; spec.setmode('conc')
    if rng.random() < .3: return
    for f, n, w in (('VI', N + 1, 36), ('extFace', 2 * N + 1, 8)):
        A = g.field(p, f)
        for i in range(w // 4, n * w // 4):
            if rng.random() < .5: g.poke(A + 4 * i, 'int', rng.randint(0, 9))
    for f in ('BicompRootLists', 'sortedDFSChildLists'):
        from cdv.conc import CP
        lc = CP(g.field(p, f), CT('struct', name='listCollectionRec')); A = g.field(lc, 'List')
        for i in range(2 * (N + 1)):
            if rng.random() < .5: g.poke(A + 4 * i, 'int', rng.randint(0, N))
    V = g.field(p, 'V')
    for v in range(1, 2 * N + 1): g.poke(V + 16 * v + 8, 'int', rng.randint(0, 2 * N))
    for k in ICF: 
        if rng.random() < .5: g.setfield(p, ('IC', k), rng.randint(0, 9))
    g.setfield(p, ('internalFlags',), rng.choice([0, 1, 3, 7])); g.setfield(p, ('embedFlags',), rng.choice([0, 1, 2, 5, 66]))
    if rng.random() < .5 and g.garcs:
        hid = rng.sample(g.garcs, min(len(g.garcs), rng.randint(1, 3)))
        for e in hid:
            if e in live_arcs(g, p): g.call('gp_HideEdge', p, e); g.trace.append('hide %d' % e)
contract('gp_CopyGraph', [('d', 'g'), ('s', 'g')], prop=P, modular=False, noleak=True, use=(), modifies=DALL, loops=CL, gen=copy_gen, mergelimit=3, weight=9,
    requires=lambda v, a: (v.d.wf() + v.s.wf() + [('capacities fit an int', And(Le(v.s.cap, 2**28), Le(v.d.cap, 2**28))), ('extension lists are empty', And(v.d.m.isnull(v.d._p('extensions')), v.s.m.isnull(v.s._p('extensions'))))]),
    ghost=lambda o, n, a, r: cp_ghost(n.d, n.s) if r is I(OK) else None,
    ensures=lambda o, n, a, r: [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK))), ('graphs of different order are refused', Implies(Ne(o.d.N, o.s.N), And(Eq(r, NOTOK), Eq(n.d.M, o.d.M), Eq(n.d.cap, o.d.cap), Eq(n.d.N, o.d.N)))),
        ('different order: destination not touched', Implies(Ne(o.d.N, o.s.N), lambda: And(sameER(n.d, o.d, 2, 2 + o.d.cap), sameV(n.d, o.d, 1, 1 + 2 * o.d.N))))]
        + guarded(Eq(r, OK), lambda: sameall(n.d, n.s) + [('capacity', Eq(n.d.cap, Max(o.d.cap, o.s.cap))), ('surplus records are clear', clearE(n.d, 2 + o.s.cap, 2 + n.d.cap))])
        + guarded(Eq(r, OK), lambda: n.d.wf()))
contract('gp_CopyAdjacencyLists', [('d', 'g'), ('s', 'g')], prop=P, modular=False, noleak=True, use=(), modifies=DALL, gen=copy_gen, mergelimit=3, weight=5,
    loops={'gp_CopyAdjacencyLists:0': (lambda c: [Le(1, c.v("v"), 1 + DV(c).s.N), All(1, c.v("v"), lambda v: And(Eq(DV(c).d.first(v), DV(c).s.first(v)), Eq(DV(c).d.last(v), DV(c).s.last(v))), pat=lambda v: [DV(c).d.first(v)])], lambda c: 1 + DV(c).s.N - c.v("v")),
        'gp_CopyAdjacencyLists:1': (lambda c: [Le(2, c.e, c.EsizeOccupied), sameAdj(DV(c).d, DV(c).s, c.e)], lambda c: c.EsizeOccupied - c.e), '_EnsureArcCapacity:0': CL['_EnsureArcCapacity:0']},
    requires=lambda v, a: v.d.wf() + v.s.wf() + [('capacities fit an int', And(Le(v.s.cap, 2**28), Le(v.d.cap, 2**28)))],
    ensures=lambda o, n, a, r: [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK))), ('graphs of different order are refused', Implies(Ne(o.d.N, o.s.N), And(Eq(r, NOTOK), Eq(n.d.M, o.d.M), Eq(n.d.cap, o.d.cap))))]
        + guarded(Eq(r, OK), lambda: [('same list ends', All(1, 1 + o.s.N, lambda v: And(Eq(n.d.first(v), o.s.first(v)), Eq(n.d.last(v), o.s.last(v))), pat=lambda v: [n.d.first(v)])), ('same arcs', sameAdj(n.d, o.s, o.s.bound)), ('same size and free slots', And(Eq(n.d.M, o.s.M), samestack(o.s.holes, n.d.holes)))]))
def sameAdj(d, s, hi): return All(2, hi, lambda e: And(Eq(d.nbr(e), s.nbr(e)), Eq(d.next(e), s.next(e)), Eq(d.prev(e), s.prev(e))), pat=lambda e: [d.nbr(e)])
DL = dict(CL)
def RV(c):
    """views of the duplicate under construction: the block gp_CopyGraph is working on"""
    return None
contract('gp_DupGraph', [('s', 'g')], prop=P, modular=False, bounded=True, noleak=True, gen=lambda g, rng: [dup_src(g, rng)],
    requires=lambda v, a: v.s.wf(), ensures=lambda o, n, a, r: [('NULL only when memory runs out', r.addr != 0 or n.s.m.g.counter('cdv_failed').value > 0)] + ([] if not r.addr else dup_post(o, n, r)))
def dup_post(o, n, r):
    d = GV(n.s.m, r); n.s.m.g.tofree.append(('graph', r.addr))
    return sameall(d, o.s) + [('capacity at least that of the original', d.cap >= o.s.cap), ('surplus records are clear', clearE(d, 2 + o.s.cap, 2 + d.cap)), ('storage is not shared', all(d._p(f).addr != o.s._p(f).addr for f in PTRS))] + d.wf()
def dup_src(g, rng):
    s = rgraph(g, rng, 's', loops=True); scramble(g, rng, s); return s
