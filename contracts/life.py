"""Contracts of graphUtils.c: creation, initialisation, reuse, growth and release of graphs (C17)"""
from .graph import *
P = 'C17'
PTRS = ('E', 'V', 'VI', 'extFace', 'BicompRootLists', 'sortedDFSChildLists', 'theStack', 'edgeHoles')
class BareGraph(Kind):
    """a graph after gp_New(): nothing allocated, maybe a requested arc capacity"""
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, STRUCT, single=True, kind='owned')
        for f in PTRS + ('extensions',): st.mem[(b.id, (f,))] = NULLP
        p = Ptr(b, 0, t.FALSE)
        fr = X.frame; X.frame = ['setup']; n0 = len(X.obls); env = st.env
        X.inline(st, X.prog.funcs['_InitFunctionTable'], [p], None)
        st.env = env; X.frame = fr; del X.obls[n0:]
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return GV(mem, val)
    def blocks(s, mem, val, tag): return {tag: val.b}
    def cmake(s, g, rng, nm):
        p = GP(g.call('gp_New')); g.tofree.append(('graph', p.addr))
        if rng.random() < .4: g.call('gp_EnsureArcCapacity', p, 2 * rng.randint(1, 40))
        g.trace.append('gp_New, arcCapacity=%d' % g.field(p, 'arcCapacity'))
        return p
KINDS['g0'] = BareGraph()
class PGraph(Kind):
    """graphP *: address of a variable holding a graph"""
    def make(s, X, st, tag, nullable=False):
        p = KINDS['g'].make(X, st, tag + '*', True)
        b = X.new_block(st, tag, CT('ptr', STRUCT), single=True); st.mem[(b.id, ())] = p
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return PGV(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}; v = mem.get(val, ())
        if v.b is not None: d.update(KINDS['g'].blocks(mem, v, tag + '*'))
        return d
    def cmake(s, g, rng, nm):
        from cdv.conc import CP
        q = CP(g.alloc(8), CT('ptr', STRUCT)); z = rng.random()
        g.poke(q.addr, 'ptr', 0 if z < .1 else (KINDS['g0'] if z < .3 else KINDS['g']).cmake(g, rng, nm + '*').addr)
        return q
class PGV:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    g = property(lambda s: GV(s.m, s.m.ptr(s.h, ())))
KINDS['pg'] = PGraph()
def bare(g):
    return [('nothing allocated: ' + f, g.m.isnull(g._p(f))) for f in PTRS] + [('no order, edges or flags', And(Eq(g.N, 0), Eq(g.NV, 0), Eq(g.M, 0), Eq(g.iflags, 0), Eq(g.eflags, 0)))]
def bare0(g): return [Eq(g.N, 0), Eq(g.NV, 0), Eq(g.M, 0), Eq(g.iflags, 0), Eq(g.eflags, 0), Le(0, g.cap)] if spec.MODE == 'sym' else bare(g) + [Le(0, g.cap)]
def empty(g):
    z = lambda x: Eq(x, t.bvc(0) if spec.MODE == 'sym' else 0)
    return [('no edges', And(Eq(g.M, 0), Eq(g.holes.size, 0), Eq(g.stk.size, 0))), ('no flags', And(z(Bits(g.iflags, -1)), z(Bits(g.eflags, -1))) if spec.MODE == 'conc' else And(Eq(g.iflags, 0), Eq(g.eflags, 0))),
        ('every vertex has an empty list', All(1, g.nv, lambda v: And(Eq(g.first(v), NIL), Eq(g.last(v), NIL)), pat=lambda v: [g.first(v)])),
        ('vertex records are initial', All(1, g.nv, lambda v: And(Eq(g.index(v), NIL), z(Bits(g.vf(v), -1)), Eq(g.ext(v, 0), NIL), Eq(g.ext(v, 1), NIL)))),
        ('vertex information is initial', All(1, g.N + 1, lambda v: And(*[Eq(g.vi(v, k), NIL) for k in ('parent', 'leastAncestor', 'lowpoint', 'visitedInfo', 'pertinentEdge', 'pertinentRoots', 'futurePertinentChild', 'sortedDFSChildList', 'fwdArcList')]))),
        ('no list collection has content', And(g.brl.blank(), g.sdl.blank()) if hasattr(g.brl, 'blank') else True)]
def empty_ghost(g, ok=True):
    """the sequences of a graph without edges"""
    if spec.MODE != 'sym': return
    m, h = g.m, g.h
    for nm, ar in GHOSTS:
        val = -1 if nm == 'hidx' else 0
        m.ghostset(h, nm, (lambda *i, val=val: t.I(val)))
def init_ghost(o, n, a, r): empty_ghost(n.g)
def owned_ok(g): return [('everything is allocated', And(*[g.m.alive(g._p(f)) for f in PTRS]))]
ARCS = 2 * 3
def initcap(o): return Ite(Lt(0, o.cap), o.cap, ARCS * 1 * 1 * o_N(o))
contract('gp_New', [], prop=P, modular=False, noleak=True,
    ensures=lambda o, n, a, r: [(l, Implies(Not(n.mem.isnull(r)), lambda x=x: x)) for l, x in bare(GV(n.mem, r))] + [('no extensions, capacity unset', Implies(Not(n.mem.isnull(r)), lambda: And(n.mem.isnull(n.mem.ptr(r, ('extensions',))), Eq(GV(n.mem, r).cap, 0))))] if spec.MODE == 'sym' or r.addr else [])
def initgood(o, a): return And(Lt(0, a.N), Eq(o.N, 0))
def guarded(c, xs): 
    if spec.MODE == 'conc': return xs() if c else []
    return [(l, Implies(c, x)) for l, x in [(y if isinstance(y, tuple) else ('', y)) for y in xs()]]
def init_req(v, a):
    cap = Ite(Lt(0, v.g.cap), v.g.cap, 6 * a.N)
    return bare0(v.g) + [('sizes fit an int', And(Le(a.N, (INTMAX - 64) // 48), Le(v.g.cap, (INTMAX - 64) // 4), Eq(Mod(v.g.cap, 2), 0)))]
def init_post(o, n, a, r):
    ok = Eq(r, OK)
    return [('OK or NOTOK', Or(ok, Eq(r, NOTOK))), ('a bad order is rejected', Implies(Le(a.N, 0), And(Eq(r, NOTOK), Eq(n.g.cap, o.g.cap))))] \
        + guarded(ok, lambda: n.g.wf() + empty(n.g) + owned_ok(n.g) + [('order', And(Eq(n.g.N, a.N), Eq(n.g.NV, a.N))), ('promised capacity', Eq(n.g.cap, Ite(Lt(0, o.g.cap), o.g.cap, 6 * a.N)))]) \
        + guarded(Ne(r, OK), lambda: bare(n.g))
SUB = ['BicompRootLists:List', 'sortedDFSChildLists:List', 'theStack:S', 'edgeHoles:S']
GALL = ['g:' + x for x in SUB] + ['g', 'g:E', 'g:V', 'g:VI', 'g:extFace', 'g:BicompRootLists', 'g:sortedDFSChildLists', 'g:theStack', 'g:edgeHoles']
contract('gp_InitGraph', [('g', 'g0'), ('N', 'int')], prop=P, modular=False, noleak=True, modifies=GALL, requires=init_req, ghost=init_ghost, ensures=init_post, weight=5,
    gen=lambda g, rng: [KINDS['g0'].cmake(g, rng, 'g'), rng.choice([-1, 0, 1, 1, 2, 3, 5, 9, 30])])
contract('gp_InitGraph@again', [('g', 'g'), ('N', 'int')], alias='gp_InitGraph', prop=P, requires=lambda v, a: gwf(v, a), ensures=lambda o, n, a, r: [('repeated initialisation is rejected', Eq(r, NOTOK))])
contract('gp_ReinitializeGraph', [('g', 'g')], prop=P, modular=False, modifies=GALL, requires=lambda v, a: gwf(v, a), ghost=init_ghost,
    ensures=lambda o, n, a, r: n.g.wf() + empty(n.g) + [('order and capacity kept', And(Eq(n.g.N, o.g.N), Eq(n.g.NV, o.g.N), Eq(n.g.cap, o.g.cap)))])
contract('gp_Free', [('pg', 'pg?')], prop=P, modular=False, modifies=['pg*:' + x for x in SUB] + ['pg', 'pg*', 'pg*:E', 'pg*:V', 'pg*:VI', 'pg*:extFace', 'pg*:BicompRootLists', 'pg*:sortedDFSChildLists', 'pg*:theStack', 'pg*:edgeHoles'],
    requires=lambda v, a: [] if spec.MODE == 'conc' else v.pg.g.shape(),
    ensures=lambda o, n, a, r: [('the handle is cleared', Implies(Not(o.pg.null), n.pg.g.null))] + [('released: ' + f, Implies(And(Not(o.pg.null), Not(o.pg.g.null), lambda: Not(o.mem.isnull(o.pg.g._p(f)))), lambda f=f: Not(n.mem.alive(o.pg.g._p(f))))) for f in PTRS]
        + [('the graph is released', Implies(And(Not(o.pg.null), Not(o.pg.g.null)), lambda: Not(n.mem.alive(o.pg.g.h))))])
contract('gp_GetArcCapacity', [('g', 'g')], prop=P, requires=gwf, ensures=lambda o, n, a, r: [('twice the number of edges the graph can hold', Eq(r, o.g.cap))])
# ---- growth ----
def sameE(o, n, hi): return All(0, hi, lambda e: And(Eq(n.nbr(e), o.nbr(e)), Eq(n.ef(e), o.ef(e)), Eq(n.next(e), o.next(e)), Eq(n.prev(e), o.prev(e))), pat=lambda e: [n.nbr(e)])
def clearE(n, lo, hi):
    z = t.bvc(0) if spec.MODE == 'sym' else 0
    return All(lo, hi, lambda e: And(Eq(n.nbr(e), NIL), Eq(n.next(e), NIL), Eq(n.prev(e), NIL), Eq(Bits(n.ef(e), -1), z)), pat=lambda e: [n.nbr(e)])
def samestack(o, n): return And(Eq(n.size, o.size), All(0, o.size, lambda i: Eq(n.at(i), o.at(i)), pat=lambda i: [n.at(i)]))
def grow_inv(c):
    o, n = c.X.old.g, CV(c)
    return [Le(c.Esize, c.e, c.newEsize), sameE(o, n, 2 + o.cap), clearE(n, 2 + o.cap, c.e)]
GLOOP = {'_EnsureArcCapacity:0': (grow_inv, lambda c: c.newEsize - c.e)}
bigcap = lambda v, a: [('capacities fit an int', Le(v.g.cap, 2**28))]
GM = ['g.E', 'g.theStack', 'g.edgeHoles', 'g.arcCapacity', 'g:theStack', 'g:theStack:S', 'g:edgeHoles', 'g:edgeHoles:S', 'g:E']
def grow_post(o, n, a, r):
    o, n = o.g, n.g; q = a.req; bad = Or(Le(q, 0), Ne(Mod(q, 2), 0))
    grown = And(Not(bad), Lt(o.cap, q), Eq(r, OK))
    return [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK))), ('odd or non-positive requests are rejected', Implies(bad, Eq(r, NOTOK))), ('enough capacity: nothing to do', Implies(And(Not(bad), Le(q, o.cap)), Eq(r, OK))),
        ('capacity', Eq(n.cap, Ite(grown, q, o.cap))), ('edges keep place and content', sameE(o, n, 2 + o.cap)), ('the records added are clear', clearE(n, 2 + o.cap, 2 + n.cap)), ('count and free slots kept', And(Eq(n.M, o.M), samestack(o.holes, n.holes), samestack(o.stk, n.stk)))] + n.wf()
def grow_gen(g, rng):
    p = rgraph(g, rng, 'g'); c = g.field(p, 'arcCapacity')
    return [p, rng.choice([c, c + 2, c + 2, 2 * c, 2 * c + 20, c - 2, 0, -2, c + 1, 2])]
for nm in ('gp_EnsureArcCapacity', '_EnsureArcCapacity'):
    contract(nm, [('g', 'g'), ('req', 'int')], prop=(P, 'C02', 'C01'), modular=False, noleak=True, modifies=GM, loops=GLOOP, gen=grow_gen, ensures=grow_post,
        requires=lambda v, a, nm=nm: gwf(v, a) + bigcap(v, a) + [Le(a.req, 2**29)] + ([And(Lt(0, a.req), Eq(Mod(a.req, 2), 0))] if nm[0] == '_' else []))
contract('gp_EnsureArcCapacity@new', [('g', 'g0'), ('req', 'int')], alias='gp_EnsureArcCapacity', prop=P, modifies=['g.arcCapacity'], requires=lambda v, a: bare0(v.g),
    ensures=lambda o, n, a, r: [('a positive even request is remembered for initialisation', Implies(And(Lt(0, a.req), Eq(Mod(a.req, 2), 0)), Eq(r, OK), Eq(n.g.cap, Max(o.g.cap, a.req)))), ('others are rejected', Implies(Or(Le(a.req, 0), Ne(Mod(a.req, 2), 0)), Eq(r, NOTOK), Eq(n.g.cap, o.g.cap)))],
    gen=lambda g, rng: [KINDS['g0'].cmake(g, rng, 'g'), rng.randint(-3, 60)])
def NN(g): return g.N * (g.N - 1)
def dyn_cap(nofail):
    def f(o, n, a, r, B_):
        can = And(Not(B_), Or(Not(full(o)), Lt(o.cap, NN(o))))
        return [('OK, NOTOK or nonembeddable', Or(Eq(r, OK), Eq(r, NOTOK), Eq(r, NONEMB))), ('succeeds without growing while there is room', Implies(And(Not(B_), Not(full(o))), Eq(r, OK), Eq(n.cap, o.cap))),
            ('capacity doubles up to that of the complete graph', Implies(And(Not(B_), full(o), Eq(r, OK)), lambda: And(Lt(o.cap, NN(o)), Eq(n.cap, Min(2 * o.cap, NN(o)))))),
            ('never shrinks', Le(o.cap, n.cap))] + ([('succeeds below the capacity of the complete graph', Implies(can, Eq(r, OK)))] if nofail else [])
    return f
def dyn_gen(g, rng):
    while True:
        p = rgraph(g, rng, 'g', loops=True, simple=rng.random() < .5)
        if rng.random() < .7:
            gv = liveview(g, p)
            if gv.cap <= 24:
                for _ in range(gv.cap):
                    if g.call('gp_AddEdge', p, rng.randint(1, g.gN), rng.randint(0, 1), rng.randint(1, g.gN), rng.randint(0, 1)) != OK: break
                    g.trace.append('fill')
        return [p] + [x for _ in '01' for x in (KINDS['vvert'].cmake(g, rng, ''), rng.randint(0, 1))]
for nm, nf in (('gp_DynamicAddEdge', False), ('gp_DynamicAddEdge@nofail', True)):
    contract(nm, [('g', 'gloop'), ('u', 'vvert'), ('ulink', 'bit'), ('v', 'vvert'), ('vlink', 'bit')], alias='gp_DynamicAddEdge', prop=('C02', 'C01'), modular=False, modifies=ADDM + GM, use=('gp_AddEdge',), loops=GLOOP, mergelimit=3, gen=dyn_gen, weight=9,
        allocfail=not nf, noleak=not nf, requires=lambda v, a: gwf(v, a) + bigcap(v, a) + [In(0, a.ulink, 2), In(0, a.vlink, 2)] + ([Lt(0, v.g.cap)] if nf else []),
        assume=lambda v, a: [('arithmetic: N(N-1) is even', Eq(Mod(NN(v.g), 2), 0)), ('arithmetic: candidate/N >= N-1 iff candidate >= N(N-1)', Iff(Le(v.g.N - 1, Div(2 * v.g.cap, v.g.N)), Le(NN(v.g), 2 * v.g.cap)))],
        ghost=cond_ghost(add_L), ensures=addpost(add_L, add_bad, dyn_cap(nf)) if not nf else lambda o, n, a, r: dyn_cap(True)(o.g, n.g, a, r, add_bad(o.g, a)))
