"""graphDFSUtils.c: _SortVertices under contract (C05)"""
from .isol import *
from .isol import vinv, og, ng
# ---------------------------------------------------------------- C05: proof of the sorting itself (graphs already numbered)
def srcof(g):
    """(p) the vertex whose stored index is p"""
    if spec.MODE == 'sym': return lambda p: t.app('srcof', (t.I(p),), 'Int')
    d = {int(g.index(v)): v for v in range(1, g.N + 1)}
    return lambda p: d.get(int(p), 0)
class Cycles:
    """cycle decomposition of the permutation v -> index(v): lead (smallest member), rank along the cycle from there, member, length"""
    def __init__(s, g):
        if spec.MODE == 'sym':
            s.ld = lambda v: t.app('cyc_lead', (t.I(v),), 'Int'); s.rk = lambda v: t.app('cyc_rank', (t.I(v),), 'Int'); s.mem = lambda l, k: t.app('cyc_mem', (t.I(l), t.I(k)), 'Int'); s.len = lambda l: t.app('cyc_len', (t.I(l),), 'Int')
            return
        d = {}; m = {}; ln = {}
        for v in range(1, g.N + 1):
            x = v; k = 0
            while x not in d and 1 <= x <= g.N: d[x] = (v, k); m[v, k] = x; x = int(g.index(x)); k += 1
            if k: ln[v] = k
        s.ld = lambda v: d[int(v)][0]; s.rk = lambda v: d[int(v)][1]; s.mem = lambda l, k: m[l, k]; s.len = lambda l: ln[l]
def cycles(v, a):
    g = v.g; C = Cycles(g); N = g.N; ld, rk, ix = C.ld, C.rk, g.index
    return [('cycle decomposition of a permutation (finite; every vertex lies on the cycle of its smallest member and is determined by its rank on it)', All(1, 1 + N, lambda w: And(Le(1, ld(w)), Le(ld(w), w), Eq(ld(ld(w)), ld(w)), Le(0, rk(w)), Lt(rk(w), C.len(ld(w))), Le(C.len(ld(w)), N), Iff(Eq(rk(w), 0), Eq(w, ld(w))),
        Eq(C.mem(ld(w), rk(w)), w), Eq(ld(ix(w)), ld(w)), Ite(Eq(rk(w) + 1, C.len(ld(w))), lambda: Eq(ix(w), ld(w)), lambda: Eq(rk(ix(w)), rk(w) + 1))), pat=lambda w: [[ld(w)], [rk(w)], [ix(w)]]))]
def numbered(v, a):
    g = v.g; N = g.N; s = srcof(g)
    return gwf(v, a) + [('numbered', Ne(Bits(g.iflags, NUMBERED), t.bvc(0) if spec.MODE == 'sym' else 0)), ('stored indices are vertices', All(1, 1 + N, lambda w: And(Le(1, g.index(w)), Le(g.index(w), N), lambda: Eq(s(g.index(w)), w)), pat=lambda w: [g.index(w)])),
        ('every vertex is a stored index', All(1, 1 + N, lambda p: And(Le(1, s(p)), Le(s(p), N), lambda: Eq(g.index(s(p)), p)), pat=lambda p: [s(p)])),
        ('parents are vertices', All(1, 1 + N, lambda w: And(Le(0, g.parent(w)), Le(g.parent(w), N)), pat=lambda w: [g.parent(w)])),
        ('no edges to virtual vertices', All(2, g.bound, lambda e: Le(0, g.nbr(e), N), pat=lambda e: [g.nbr(e)]))]
def s_nbr(o, e): return Ite(Eq(o.nbr(e), NIL), NIL, lambda: o.index(o.nbr(e)))
def s_par(o, w): return Ite(Eq(o.parent(w), NIL), NIL, lambda: o.index(o.parent(w)))
def vis(g, w): return Ne(Bits(g.vf(w), 1), t.bvc(0) if spec.MODE == 'sym' else 0)
VIR = tuple(k for k in VIF if k != 'parent')
def rec_is(o, n, w, u, flag=None):
    """the vertex record and information at w are those of u"""
    return And(Eq(n.first(w), o.first(u)), Eq(n.last(w), o.last(u)), Eq(n.vf(w), BvClear(o.vf(u), 1) if flag is None else BvOr(BvClear(o.vf(u), 1), 1)), info_is(o, n, w, u))
def info_is(o, n, w, u): return And(Eq(n.parent(w), s_par(o, u)), *[Eq(n.vi(w, k), o.vi(u, k)) for k in VIR])
def s_e(c):
    o, n = og(c), ng(c); e = c.v('e')
    return [Le(2, e, o.bound), Eq(Mod(e, 2), 0), ('edges passed are renamed', All(2, e, lambda x: Eq(n.nbr(x), s_nbr(o, x)), pat=lambda x: [n.nbr(x)])), ('the other edges wait', All(e, 2 + o.cap, lambda x: Eq(n.nbr(x), o.nbr(x)), pat=lambda x: [n.nbr(x)]))]
def s_v(c):
    o, n = og(c), ng(c); v = c.v('v')
    return [Le(1, v, 1 + o.N), All(1, v, lambda w: Eq(n.parent(w), s_par(o, w)), pat=lambda w: [n.parent(w)]), All(v, 1 + o.N, lambda w: Eq(n.parent(w), o.parent(w)), pat=lambda w: [n.parent(w)])]
RP = lambda n: lambda w: [n.vf(w), n.first(w), n.last(w), n.index(w), n.parent(w)]
def placed(o, n, s, v=None):
    return [('visited positions hold their record', All(1, 1 + o.N, lambda w: Implies(vis(n, w), rec_is(o, n, w, s(w), 1), Eq(n.index(w), s(w))), pat=RP(n))),
        ('the other positions are untouched', All(1, 1 + o.N, lambda w: Implies(And(Not(vis(n, w)), True if v is None else Ne(w, v)), rec_is(o, n, w, w), Eq(n.index(w), o.index(w))), pat=RP(n))),
        ('virtual vertices are untouched', All(1 + o.N, o.nv, lambda w: And(Eq(n.first(w), o.first(w)), Eq(n.last(w), o.last(w)), Eq(n.index(w), o.index(w)), Eq(n.vf(w), o.vf(w))), pat=lambda w: [n.vf(w), n.first(w), n.last(w), n.index(w)]))]
def s_o(c):
    o, n = og(c), ng(c); v = c.v('v'); C = Cycles(o)
    return [Le(1, v, 1 + o.N)] + placed(o, n, srcof(o)) + [('exactly the cycles led by earlier vertices are done', All(1, 1 + o.N, lambda w: Iff(vis(n, w), Lt(C.ld(w), v)), pat=lambda w: [n.vf(w), C.ld(w)]))]
def s_i(c):
    o, n = og(c), ng(c); v = c.v('v'); src = c.v('srcPos'); s = srcof(o); C = Cycles(o); ld, rk = C.ld, C.rk; open_ = Not(vis(n, v))
    return [Le(1, v, o.N), Le(1, src, o.N)] + placed(o, n, s, v) + [
        ('the vertex in hand waits at v', Implies(open_, rec_is(o, n, v, src), Eq(n.index(v), o.index(src)))), ('the cycle of v is in hand', Implies(open_, Eq(ld(src), v), Eq(ld(v), v))),
        ('of that cycle the positions up to the one in hand are done', Implies(open_, All(1, 1 + o.N, lambda w: Iff(vis(n, w), Or(Lt(ld(w), v), And(Eq(ld(w), v), Ne(w, v), Le(rk(w), rk(src))))), pat=lambda w: [n.vf(w), ld(w)]))),
        ('at the end the whole cycle is done', Implies(Not(open_), All(1, 1 + o.N, lambda w: Iff(vis(n, w), Le(ld(w), v)), pat=lambda w: [n.vf(w), ld(w)])))]
def s_L(o, s):
    L = o.L; N = o.N
    return SymLists(lambda w, k: Ite(Le(w, N), lambda: L.at(s(w), k), lambda: L.at(w, k)), lambda w: Ite(Le(w, N), lambda: L.deg(s(w)), lambda: L.deg(w)), L.pos, lambda x: o.index(L.own(x)), L.live)
def num_post(o, n, a, r):
    o, n = o.g, n.g; s = srcof(o); N = o.N
    return [('OK', Eq(r, OK)), ('every edge joins the renamed endpoints', All(2, o.bound, lambda e: Eq(n.nbr(e), s_nbr(o, e)), pat=lambda e: [n.nbr(e)])), ('free slots stay free', All(o.bound, 2 + o.cap, lambda e: Eq(n.nbr(e), o.nbr(e)), pat=lambda e: [n.nbr(e)])),
        ('adjacency lists move with their vertex', All(1, 1 + N, lambda p: And(Eq(n.first(p), o.first(s(p))), Eq(n.last(p), o.last(s(p)))), pat=lambda p: [n.first(p)])),
        ('attributes move along', All(1, 1 + N, lambda p: Eq(n.vf(p), BvOr(BvClear(o.vf(s(p)), 1), 1)), pat=lambda p: [n.vf(p)])), ('vertex information moves along', All(1, 1 + N, lambda p: And(*[Eq(n.vi(p, k), o.vi(s(p), k)) for k in VIR]), pat=lambda p: [n.vf(p)])),
        ('parents renamed', All(1, 1 + N, lambda p: Eq(n.parent(p), s_par(o, s(p))), pat=lambda p: [n.parent(p)])), ('the index remembers the original label', All(1, 1 + N, lambda p: Eq(n.index(p), s(p)), pat=lambda p: [n.index(p)])),
        ('virtual vertices are untouched', All(1 + N, o.nv, lambda w: And(Eq(n.first(w), o.first(w)), Eq(n.last(w), o.last(w)), Eq(n.index(w), o.index(w)), Eq(n.vf(w), o.vf(w))), pat=lambda w: [n.vf(w)])),
        ('sorted flag inverted', Eq(n.iflags, BvXor(o.iflags, SORTED)))] + n.wf()
def var_in(c): return Ite(vis(ng(c), c.v('v')), 0, lambda: og(c).N + 1 - Cycles(og(c)).rk(c.v('srcPos')))
SLOOP = [(s_e, lambda c: og(c).bound - c.v('e')), (s_v, lambda c: 1 + og(c).N - c.v('v')), (s_o, lambda c: 1 + og(c).N - c.v('v')), (s_i, var_in)]
for nm, f in (('_SortVertices@numbered', '_SortVertices'), ('gp_SortVertices@numbered', 'gp_SortVertices')):
    contract(nm, [('g', 'g')], alias=f, prop='C05', modular=False, gen=sort_gen, modifies=['g.internalFlags', 'g:V', 'g:VI', 'g:E.neighbor'] + GHM, requires=numbered, assume=cycles, use=(),
        loops=dict(VL, **{'%s:%d' % (nm if f[0] == '_' else '_SortVertices', k): x for k, x in enumerate(SLOOP)}), ghost=lambda o, n, a, r: n.g.setL(s_L(o.g, srcof(o.g))), ensures=num_post, configs=('rel', 'dbg'))
