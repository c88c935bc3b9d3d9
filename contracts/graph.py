"""Contracts of graphUtils.c: adjacency lists, edge storage, queries (C01, C02, C04)"""
from .gview import *
from .gview import scenario, NOTOK, GV
from cdv.conc import CP, Violation
GHM = ['g.$at', 'g.$deg', 'g.$pos', 'g.$own', 'g.$live']
EL = ['g:E.link', 'g:V.link']
def gwf(v, a): return v.g.wf()
def keepE(o, n, hi, cond=lambda e: True, links=False):
    """edge records below hi for which cond holds keep neighbor and flags"""
    return All(0, hi, lambda e: Implies(cond(e), Eq(n.nbr(e), o.nbr(e)), Eq(n.ef(e), o.ef(e))), pat=lambda e: [n.nbr(e)]) 
def ends(L, u, link): return Ite(Eq(link, 0), 0, lambda: L.deg(u))
# ---------------- list surgery ----------------
def att_pos(o, a):
    L = o.L
    return Ite(Ne(a.e, NIL), lambda: Ite(Eq(a.link, 0), lambda: L.pos(a.e) + 1, lambda: L.pos(a.e)), lambda: Ite(Eq(a.link, 0), 0, lambda: L.deg(a.v)))
def att_L(o, a): return o.L.insert(a.v, att_pos(o, a), a.newArc)
def att_gen(g, rng):
    p = rgraph(g, rng, 'g', loops=True)
    if not g.garcs: return [p, 1, 0, 0, 2]
    x = rng.choice(g.garcs); v = liveview(g, p).nbr(x ^ 1); g.call('gp_DetachArc', p, x); g.trace.append('detach %d' % x)
    l = liveview(g, p).L.d.get(int(v), [])
    return [p, int(v), rng.choice(l) if l and rng.random() < .7 else 0, rng.randint(0, 1), x]
contract('gp_AttachArc', [('g', 'gloose'), ('v', 'vvert'), ('e', 'arcnil'), ('link', 'bit'), ('newArc', 'freearc')], prop='C01', modular=False, modifies=EL + GHM, gen=att_gen,
    requires=lambda v, a: v.g.shape() + v.g.adj() + [v.g.anyv(a.v), In(0, a.link, 2), v.g.arc(a.newArc), Not(v.g.live(a.newArc)), Eq(v.g.nbr(Xor1(a.newArc)), a.v), v.g.anyv(v.g.nbr(a.newArc)),
        Or(Eq(a.e, NIL), And(v.g.arc(a.e), lambda: v.g.live(a.e), lambda: Eq(v.g.own(a.e), a.v)))],
    ghost=lambda o, n, a, r: n.g.setL(att_L(o.g, a)),
    ensures=lambda o, n, a, r: n.g.adj() + lists_equal(n.g.L, att_L(o.g, a), n.g.bound, n.g.nv))
contract('gp_DetachArc', [('g', 'g'), ('arc', 'arc')], prop='C01', modular=False, modifies=EL + GHM,
    requires=lambda v, a: v.g.shape() + v.g.adj() + [v.g.arc(a.arc), lambda: v.g.live(a.arc)] if spec.MODE == 'conc' else v.g.shape() + v.g.adj() + [v.g.arc(a.arc), v.g.live(a.arc)],
    ghost=lambda o, n, a, r: n.g.setL(o.g.L.remove(a.arc)),
    ensures=lambda o, n, a, r: n.g.adj() + lists_equal(n.g.L, o.g.L.remove(a.arc), n.g.bound, n.g.nv) + [('the detached arc keeps its links', And(Eq(n.g.next(a.arc), o.g.next(a.arc)), Eq(n.g.prev(a.arc), o.g.prev(a.arc))))])
# ---------------- add / insert / delete ----------------
def newslot(o):
    """(vpos) the location used for a new edge: top hole, else the first unused location"""
    return Ite(Lt(0, o.holes.size), lambda: o.holes.at(o.holes.size - 1), o.bound)
def full(o): return Le(Div(o.cap, 2), o.M)
def ends(L, u, link): return Ite(Eq(link, 0), 0, lambda: L.deg(u))
def add_L(o, a):
    vp = newslot(o); up = Xor1(vp)
    L1 = o.L.insert(a.u, ends(o.L, a.u, a.ulink), up)
    return L1.insert(a.v, ends(L1, a.v, a.vlink), vp)
def ins_pos(L, u, e, link): return Ite(Eq(e, NIL), lambda: ends(L, u, link), lambda: Ite(Eq(link, 0), lambda: L.pos(e) + 1, lambda: L.pos(e)))
def ins_L(o, a):
    vp = newslot(o); up = Xor1(vp)
    L1 = o.L.insert(a.u, ins_pos(o.L, a.u, a.e_u, a.e_ulink), up)
    return L1.insert(a.v, ins_pos(L1, a.v, a.e_v, a.e_vlink), vp)
def unchanged(o, n): return And(Eq(n.M, o.M), Eq(n.cap, o.cap), Eq(n.holes.size, o.holes.size), lists_equal(n.L, o.L, n.bound, n.nv), keepE(o, n, o.bound))
def addpost(newL, bad, cap=None):
    def f(o, n, a, r):
        o, n = o.g, n.g
        vp = newslot(o); up = Xor1(vp)
        ok = Eq(r, OK); B_ = bad(o, a)
        c = [('invalid arguments are rejected', Implies(B_, Eq(r, NOTOK)))]
        if cap is None: c += [('capacity reached: reported, never exceeded', Implies(And(Not(B_), full(o)), Eq(r, NONEMB))), ('otherwise succeeds', Implies(And(Not(B_), Not(full(o))), ok))]
        else: c += cap(o, n, a, r, B_)
        return c + [('on failure nothing changes', Implies(Not(ok), lambda: And(Eq(n.M, o.M), Eq(n.holes.size, o.holes.size), lists_equal(n.L, o.L, n.bound, n.nv), keepE(o, n, o.bound)))),
            ('one edge more', Implies(ok, Eq(n.M, o.M + 1))),
            ('the edge joins u and v', Implies(ok, lambda: And(Eq(n.nbr(up), a.v), Eq(n.nbr(vp), a.u), Eq(n.ef(up), 0 if spec.MODE == 'conc' else t.bvc(0)), Eq(n.ef(vp), 0 if spec.MODE == 'conc' else t.bvc(0))))),
            ('other edge records keep neighbor and flags', Implies(ok, lambda: keepE(o, n, 2 + o.cap, lambda e: And(Ne(e, vp), Ne(e, up)))))] \
            + [(l, Implies(ok, x)) for l, x in zip(('degrees grow at u and v only', 'both arcs appear at the requested places, order otherwise kept'), lists_equal(n.L, newL(o, a) if spec.MODE == 'sym' or r == OK else o.L, n.bound, n.nv))] \
            + n.wf()
    return f
def choose_L(ok, L1, L0):
    if spec.MODE == 'conc': return L1() if ok else L0
    L1 = L1()
    return SymLists(lambda v, k: Ite(ok, lambda: L1.at(v, k), lambda: L0.at(v, k)), lambda v: Ite(ok, lambda: L1.deg(v), lambda: L0.deg(v)), lambda x: Ite(ok, lambda: L1.pos(x), lambda: L0.pos(x)),
        lambda x: Ite(ok, lambda: L1.own(x), lambda: L0.own(x)), lambda x: Or(And(ok, L1.live(x)), And(Not(ok), L0.live(x))))
def cond_ghost(newL):
    def f(o, n, a, r):
        n.g.setL(choose_L(Eq(r, OK), lambda: newL(o.g, a), o.g.L)); n.g.used_add(o.g, newslot(o.g), Eq(r, OK))
    return f
ADDM = ['g:E.link', 'g:E.neighbor', 'g:V.link', 'g.M', 'g:edgeHoles.size', 'g.$uidx', 'g.$uedge'] + GHM
add_bad = lambda o, a: Not(And(o.anyv(a.u), o.anyv(a.v)))
contract('gp_AddEdge', [('g', 'gloop'), ('u', 'vvert'), ('ulink', 'bit'), ('v', 'vvert'), ('vlink', 'bit')], prop=('C02', 'C01'), results=(OK, NOTOK, NONEMB), nochange=(NOTOK, NONEMB), modifies=ADDM, mergelimit=3,
    requires=lambda v, a: gwf(v, a) + [In(0, a.ulink, 2), In(0, a.vlink, 2)],
    ghost=cond_ghost(add_L), ensures=addpost(add_L, add_bad))
def ins_bad(o, a):
    out = lambda e: And(Ne(e, NIL), Not(o.arc(e)))
    return Or(add_bad(o, a), out(a.e_u), out(a.e_v), Not(In(0, a.e_ulink, 2)), Not(In(0, a.e_vlink, 2)))
def ins_gen(g, rng):
    p = rgraph(g, rng, 'g', loops=True); gv = liveview(g, p); spec.setmode('conc')
    def end():
        v = rng.randint(1, g.gN * rng.choice([1, 2])); l = gv.L.d.get(v, [])
        return v, (rng.choice(l) if l and rng.random() < .8 else 0 if rng.random() < .95 else rng.choice([1, -1, gv.bound, gv.bound + 1, 2])), rng.randint(0, 1) if rng.random() < .97 else rng.choice([-1, 2])
    u, v = end(), end()
    if rng.random() < .05: u = (rng.choice([0, -1, 2 * g.gN + 1]),) + u[1:]
    return [p, u[0], u[1], u[2], v[0], v[1], v[2]]
contract('gp_InsertEdge', [('g', 'gloop'), ('u', 'vvert'), ('e_u', 'arcnil'), ('e_ulink', 'bit'), ('v', 'vvert'), ('e_v', 'arcnil'), ('e_vlink', 'bit')], prop=('C02', 'C01'), results=(OK, NOTOK, NONEMB), nochange=(NOTOK, NONEMB), modifies=ADDM, mergelimit=3, gen=ins_gen,
    requires=lambda v, a: gwf(v, a) + [('reference arcs are in the lists of u and v', And(*[Implies(And(v.g.arc(e), Ne(e, NIL)), lambda e=e, x=x: And(v.g.live(e), Eq(v.g.own(e), x))) for e, x in ((a.e_u, a.u), (a.e_v, a.v))]))],
    ghost=cond_ghost(ins_L), ensures=addpost(ins_L, ins_bad))
def del_L(o, a): return o.L.remove(a.e).remove(Xor1(a.e))
def del_ghost(o, n, a, r):
    n.g.setL(del_L(o.g, a)); n.g.used_del(o.g, a.e)
    hs = o.g.holes.size; og = o.g; last = Lt(Min(a.e, Xor1(a.e)), og.bound - 2)
    m, h = n.g.m, n.g.h
    m.ghostset(h, 'hidx', lambda x: Ite(And(last, Or(Eq(x, a.e), Eq(x, Xor1(a.e)))), hs, lambda: og.hidx(x)))
def del_post(o, n, a, r):
    o, n = o.g, n.g; e = a.e; tw = Xor1(e)
    return [('returned: the neighbor of e in its list in the requested direction, taken before the deletion', Eq(r, Ite(Eq(a.nextLink, 0), lambda: o.next(e), lambda: o.prev(e)))),
        ('one edge less', Eq(n.M, o.M - 1)), ('capacity kept', Eq(n.cap, o.cap)), ('the edge records are cleared', And(Eq(n.nbr(e), NIL), Eq(n.nbr(tw), NIL))),
        ('other edge records keep neighbor and flags', keepE(o, n, 2 + o.cap, lambda x: And(Ne(x, e), Ne(x, tw))))] \
        + [(l, x) for l, x in zip(('degrees drop at the two ends only', 'only the two arcs leave the lists, order kept'), lists_equal(n.L, del_L(o, a), n.bound, n.nv))] + n.wf()
contract('gp_DeleteEdge', [('g', 'gloop'), ('e', 'arc'), ('nextLink', 'bit')], prop=('C02', 'C01'), modifies=['g:E', 'g:V.link', 'g.M', 'g:edgeHoles.size', 'g:edgeHoles:S', 'g.$hidx', 'g.$uidx', 'g.$uedge'] + GHM,
    requires=lambda v, a: gwf(v, a) + [v.g.arc(a.e), ('the edge is in the graph', v.g.live(a.e)), In(0, a.nextLink, 2)],
    ghost=del_ghost, ensures=del_post)
# ---------------- queries (C04) ----------------
INONLY, OUTONLY, DMASK = 32, 64, 96
def dirne(v, e, x): return Ne(Bits(v.ef(e), DMASK), t.bvc(x) if spec.MODE == 'sym' else x)
def gread(v, a): return v.g.shape() + v.g.adj()
def CV(c): return c.X.views_of(c.st).g
def scan_inv(u, extra):
    """loop over u's list with cursor e: arcs at positions < p have been seen, p = position of e (degree when e is NIL)"""
    def inv(c):
        g = CV(c); L = g.L; uu = u(c); e = c.e
        p = scanpos(g, uu, e)
        return [('cursor is NIL or in the list', Or(Eq(e, NIL), And(Le(0, L.pos(e)), Lt(L.pos(e), L.deg(uu)), Eq(L.at(uu, L.pos(e)), e), L.live(e), Eq(L.own(e), uu)))), ('position in range', Le(0, p, L.deg(uu)))] + extra(c, g, uu, p)
    return inv
def scanpos(g, u, e): return Ite(Eq(e, NIL), lambda: g.L.deg(u), lambda: g.L.pos(e))
def scan_var(u): return lambda c: CV(c).L.deg(u(c)) - scanpos(CV(c), u(c), c.e)
def noneyet(bad):
    return lambda c, g, u, p: [('no match among the arcs seen', All(0, p, lambda k: Not(bad(c, g, g.L.at(u, k))), pat=lambda k: [g.L.at(u, k)]))]
def usable(g, x, v): return And(Eq(g.nbr(x), v), dirne(g, x, INONLY))
contract('gp_IsNeighbor', [('g', 'gloop'), ('u', 'vvert'), ('v', 'vvert')], prop='C04',
    requires=lambda v, a: gread(v, a) + [v.g.anyv(a.u)],
    loops={0: (scan_inv(lambda c: c.X.args.u, noneyet(lambda c, g, x: usable(g, x, c.X.args.v))), scan_var(lambda c: c.X.args.u))},
    ensures=lambda o, n, a, r: [('0 or 1', In(0, r, 2)), ('0 only if no arc of u leads to v', Implies(Eq(r, 0), lambda: All(0, o.g.deg(a.u), lambda k: Not(usable(o.g, o.g.at(a.u, k), a.v)), pat=lambda k: [o.g.at(a.u, k)]))),
        ('1 only if some arc of u leads to v', Implies(Ne(r, 0), lambda: Exists(0, o.g.deg(a.u), lambda k: usable(o.g, o.g.at(a.u, k), a.v)) if spec.MODE == 'conc' else isn_wit(o, a)))])
def isn_wit(o, a):
    return Exists(2, o.g.bound, lambda e: And(o.g.live(e), Eq(o.g.own(e), a.u), usable(o.g, e, a.v)))
contract('gp_GetNeighborEdgeRecord', [('g', 'gloop'), ('u', 'vvert'), ('v', 'vvert')], prop='C04',
    requires=lambda v, a: gread(v, a) + [Or(Eq(a.u, NIL), Eq(a.v, NIL), v.g.anyv(a.u))],
    loops={0: (scan_inv(lambda c: c.X.args.u, noneyet(lambda c, g, x: Eq(g.nbr(x), c.X.args.v))), scan_var(lambda c: c.X.args.u))},
    ensures=lambda o, n, a, r: [('NIL vertices are rejected', Implies(Or(Eq(a.u, NIL), Eq(a.v, NIL)), Eq(r, NIL))),
        ('NIL only if no arc of u names v', Implies(And(Eq(r, NIL), Ne(a.u, NIL), Ne(a.v, NIL)), lambda: All(0, o.g.deg(a.u), lambda k: Ne(o.g.nbr(o.g.at(a.u, k)), a.v), pat=lambda k: [o.g.at(a.u, k)]))),
        ('otherwise an arc in u\'s list to v', Implies(Ne(r, NIL), lambda: And(o.g.arc(r), o.g.live(r), Eq(o.g.own(r), a.u), Eq(o.g.nbr(r), a.v)))),
        ('the first such arc of the list', Implies(Ne(r, NIL), lambda: All(0, o.g.pos(r), lambda k: Ne(o.g.nbr(o.g.at(a.u, k)), a.v), pat=lambda k: [o.g.at(a.u, k)])))])
def cntf(g, nm, v, excl):
    """number of arcs among the first k of v's list whose direction is not excl (a recursive definition)"""
    if spec.MODE == 'conc': return lambda k: sum(1 for i in range(k) if excl is None or dirne(g, g.at(v, i), excl))
    return lambda k: t.app(nm, (k,), 'Int')
def cntdef(v, a, nm, excl):
    if spec.MODE == 'conc': return []
    c = cntf(v.g, nm, a.v, excl)
    return [('definition of the count at 0', Eq(c(0), 0)), ('definition of the count', All(0, v.g.deg(a.v), lambda k: Eq(c(k + 1), c(k) + Ite(dirne(v.g, v.g.at(a.v, k), excl), 1, 0)), pat=lambda k: [v.g.at(a.v, k)]))]
def counting(g, v): return ('counting lemma: a list of distinct stored arcs is not longer than the arc storage (pigeonhole)', Implies(g.anyv(v), Le(g.deg(v), g.bound)))
def degcontract(name, nm, excl):
    cnt = (lambda c, g, u: (lambda k: k)) if excl is None else lambda c, g, u: cntf(g, nm, u, excl)
    contract(name, [('g', 'gloop'), ('v', 'vvert')], prop='C04', configs=('rel', 'dbg'), modular=excl is None, assume=lambda v, a: [counting(v.g, a.v)],
        requires=lambda v, a: gread(v, a) + [Or(Eq(a.v, NIL), v.g.anyv(a.v))] + ([] if excl is None else cntdef(v, a, nm, excl)),
        loops={0: (scan_inv(lambda c: c.X.args.v, lambda c, g, u, p: [('counted so far', Eq(c.degree, cnt(c, g, u)(p))), Le(0, c.degree, p)] + ([('at most one per arc', Le(p, g.L.deg(u)))])), scan_var(lambda c: c.X.args.v))},
        ensures=lambda o, n, a, r: [('NIL is rejected', Implies(Eq(a.v, NIL), Eq(r, 0))), ('exact count', Implies(Ne(a.v, NIL), lambda: Eq(r, o.g.deg(a.v) if excl is None else cntf(o.g, nm, a.v, excl)(o.g.deg(a.v)))))])
degcontract('gp_GetVertexDegree', 'cnt_all', None)
degcontract('gp_GetVertexInDegree', 'cnt_in', OUTONLY)
degcontract('gp_GetVertexOutDegree', 'cnt_out', INONLY)

@scenario('null_graph', ('C02', 'C07', 'C13'), short=True)
def null_graph(g, rng, log):
    """a NULL graph is refused"""
    fn, a = rng.choice([('gp_AddEdge', (1, 0, 2, 0)), ('gp_DynamicAddEdge', (1, 0, 2, 0)), ('gp_InsertEdge', (1, 0, 0, 2, 0, 0)), ('gp_LowpointAndLeastAncestor', ()), ('gp_LeastAncestor', ()), ('gp_CreateDFSTree', ()), ('_CheckEmbeddingFacialIntegrity', ())])
    log({'call': fn})
    if g.call(fn, CP(0, None), *a) != NOTOK: raise Violation(fn + ' does not refuse a NULL graph')
