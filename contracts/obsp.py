"""graphTests.c: paths between image vertices and the obstruction checker under contract (C14)"""
from functools import reduce
from .certp import *
from .certp import vis, et, Z, V, arcq, real, upd, keeps, seen, flagset, degsum, degdef, degcount, same_adj, wit, ts_pre, gh
from .graph import scan_var, scanpos
P = 'C14'
def deg2(g, w): return Eq(g.deg(w), 2)
def step(g, e): w = g.nbr(e); return Ite(Eq(g.first(w), Xor1(e)), lambda: g.last(w), lambda: g.first(w))
class Path:
    """the path that starts with an arc out of a vertex of degree other than two and runs through vertices of degree two: its arcs, numbered, and its end"""
    def __init__(s, g):
        k = '.%d' % g.h.b.id; F = lambda nm: lambda *a: t.app('path_' + nm + k, tuple(t.I(x) for x in a), 'Int')
        s.g = g; s.on_ = F('on'); s.rank = F('rank'); s.len = F('len'); s.mem = F('mem'); s.end = F('end'); s.sel = F('sel')
    def on(s, b, x): return t.ne(s.on_(b, x), 0)
    def defs(s):
        g = s.g; return ('definition of the end of a path and of its arcs', arcq(g, lambda e: And(Eq(s.end(e), Ite(deg2(g, g.nbr(e)), lambda: s.end(step(g, e)), lambda: g.nbr(e))), s.on(e, e), Eq(s.rank(e, e), 0), All(2, g.bound, lambda x: Implies(s.on(e, x), Le(0, s.rank(e, x))), pat=lambda x: [s.on_(e, x)]))))
    def seldef(s):
        g = s.g; N = g.N
        return ('definition: the first arc of a vertex whose path ends in another', All2(1, 1 + N, 1, 1 + N, lambda u, v: And(Or(Eq(s.sel(u, v), NIL), And(g.live(s.sel(u, v)), Eq(g.own(s.sel(u, v)), u), Eq(s.end(s.sel(u, v)), v))),
            arcq(g, lambda e: Implies(And(Eq(g.own(e), u), Eq(s.end(e), v)), Ne(s.sel(u, v), NIL), Le(g.pos(s.sel(u, v)), g.pos(e))))), pat=lambda u, v: [s.sel(u, v)]))
    def inj(s, b):
        g = s.g; two = lambda e: And(g.live(e), deg2(g, g.nbr(e)))
        return And(arcq(g, lambda e: Implies(deg2(g, g.nbr(e)), g.live(step(g, e)), Eq(g.own(step(g, e)), g.nbr(e)), Ne(step(g, e), b))), All2(2, g.bound, 2, lambda e: g.bound, lambda e, f: Implies(And(two(e), two(f), Eq(step(g, e), step(g, f))), Eq(e, f)), pat=lambda e, f: [[g.live(e), g.live(f)]]))
    def chain(s, b):
        g = s.g
        return All(2, g.bound, lambda x: Implies(And(g.live(x), s.on(b, x)), Le(0, s.rank(b, x)), Lt(s.rank(b, x), s.len(b)), Eq(s.mem(b, s.rank(b, x)), x), Ite(deg2(g, g.nbr(x)), lambda: And(s.on(b, step(g, x)), Eq(s.rank(b, step(g, x)), s.rank(b, x) + 1)), lambda: Eq(s.rank(b, x) + 1, s.len(b))), Eq(s.end(x), s.end(b))), pat=lambda x: [[s.on_(b, x)]])
CH = 'chain of an element without predecessor under an injective partial map (finite; its members are numbered from that element on)'
def p_pre(v, a): g = v.g; return gwf(v, a) + [real(g, 'the graph'), g.arc(a.e), g.live(a.e), ('the path starts at a vertex of another degree', Not(deg2(g, g.own(a.e))))]
def t_inv(c):
    o, n = og(c), ng(c); p = Path(o); b = c.X.args.e; e = c.v('e'); return [n.live(e), p.on(b, e), Eq(c.v('nextVertex'), o.nbr(e)), Le(0, p.rank(b, e)), ('the rest of the path has the same end', Eq(p.end(e), p.end(b)))]
def p_lem(c):
    o = og(c); p = Path(o); b = c.X.args.e; x = p_lem_x(o); e = c.v('e'); q = arcq(o, lambda f: Implies(And(p.on(b, f), Eq(p.rank(b, f), p.rank(b, e))), Eq(f, e))); w = Implies(deg2(o, o.nbr(e)), p.on(b, step(o, e)), Eq(p.rank(b, step(o, e)), p.rank(b, e) + 1))
    return p_lem_0(o) + [('', x, x), (CH, p.inj(b), p.chain(b)), ('', q, q), ('', w, w)]
    o = og(c); p = Path(o); b = c.X.args.e; x = arcq(o, lambda e: Implies(deg2(o, o.nbr(e)), o.live(step(o, e)), Eq(o.own(step(o, e)), o.nbr(e)), Ne(step(o, e), Xor1(e)), Or(Eq(Xor1(e), o.first(o.nbr(e))), Eq(Xor1(e), o.last(o.nbr(e)))))); return [('', x, x), (CH, p.inj(b), p.chain(b))]
def p_var(c): p = Path(og(c)); b = c.X.args.e; return p.len(b) - p.rank(b, c.v('e'))
contract('_TryPath', [('g', 'g'), ('e', 'arc'), ('V', 'int')], prop=P, conc_ok=False, use=(), requires=p_pre, assume=lambda v, a: [Path(v.g).defs()], loops={'_TryPath:0': LoopAnn(t_inv, p_var, lemmas=p_lem)}, configs=('rel', 'dbg'),
    ensures=lambda o, n, a, r: [('TRUE exactly if the path ends in V', Eq(r, Ite(Eq(Path(o.g).end(a.e), a.V), 1, 0)))])
def inner_arc(g, p, b, w, x, k=None): return And(g.live(x), p.on(b, x), Eq(g.nbr(x), w), deg2(g, w), True if k is None else Lt(p.rank(b, x), k))
def k_inv(c):
    o, n = og(c), ng(c); p = Path(o); b = c.X.args.e; e = c.v('e'); k = p.rank(b, e)
    return t_inv(c) + [('vertices passed are marked', arcq(n, lambda x: Implies(And(p.on(b, x), Lt(p.rank(b, x), k)), vis(n, o.nbr(x)), deg2(o, o.nbr(x))))),
        ('only they were marked', V(o, lambda w: Implies(vis(n, w), Or(vis(o, w), inner_arc(o, p, b, w, seen(n, w), k))), lambda w: [[n.vf(w)], [seen(n, w)]])), ('marks stay', V(o, lambda w: Implies(vis(o, w), vis(n, w), Eq(seen(n, w), seen(o, w))), lambda w: [n.vf(w)]))] + keeps(o, n)
def k_step(c):
    n = ng(c); h = c.X.views_of(c.head).g; u = c.v('nextVertex', c.head); e = c.v('e', c.head); upd(c, n, 'wla', lambda w, old: Ite(And(Eq(w, u), Not(vis(h, u))), e, old))
def k_post(o, n, a, r): return mark_post(o.g, n.g, a.e)
def mark_post(o, n, b):
    p = Path(o)
    return [('the vertices of degree two on the path are marked', arcq(o, lambda x: Implies(And(p.on(b, x), deg2(o, o.nbr(x))), vis(n, o.nbr(x))))),
        ('no other vertex was marked', V(o, lambda w: Implies(vis(n, w), Or(vis(o, w), inner_arc(o, p, b, w, seen(n, w)))), lambda w: [[n.vf(w)], [seen(n, w)]])), ('marks stay', V(o, lambda w: Implies(vis(o, w), vis(n, w), Eq(seen(n, w), seen(o, w))), lambda w: [n.vf(w)]))] + keeps(o, n)
contract('_MarkPath', [('g', 'g'), ('e', 'arc')], prop=P, conc_ok=False, use=(), requires=p_pre, modifies=['g:V.flags', 'g.$wla'], assume=lambda v, a: [Path(v.g).defs()], loops={'_MarkPath:0': LoopAnn(k_inv, p_var, ghost_step=k_step, ghosts=('wla',), lemmas=p_lem)}, configs=('rel', 'dbg'), ensures=k_post)

def tp_inv(c):
    o, n = og(c), ng(c); p = Path(o); U, W = c.X.args.U, c.X.args.V; e = c.v('e')
    return [('cursor', Or(Eq(e, NIL), And(n.live(e), Eq(n.own(e), U)))), ('no path from the arcs passed', Or(Eq(p.sel(U, W), NIL), And(Ne(e, NIL), Le(o.pos(e), o.pos(p.sel(U, W))))))] + same_marks(o, n)
def same_marks(o, n): return [('nothing is marked', And(All(1, o.nv, lambda w: Eq(n.vf(w), o.vf(w)), pat=lambda w: [n.vf(w)]), V(o, lambda w: Eq(seen(n, w), seen(o, w)), lambda w: [seen(n, w)])))]
def tp_post(o, n, a, r):
    o, n = o.g, n.g; p = Path(o); b = p.sel(a.U, a.V)
    return [('TRUE exactly if there is a path', Eq(r, Ite(Ne(b, NIL), 1, 0)))] + [(l, Implies(Ne(b, NIL), x)) for l, x in mark_post(o, n, b)] + [('without a path nothing is marked', Implies(Eq(b, NIL), same_marks(o, n)[0][1]))]
contract('_TestPath', [('g', 'g'), ('U', 'vert'), ('V', 'vert')], prop=P, conc_ok=False, use=('_TryPath', '_MarkPath'), requires=lambda v, a: gwf(v, a) + [real(v.g, 'the graph'), v.g.prim(a.U), v.g.prim(a.V), ('U is no vertex of degree two', Not(deg2(v.g, a.U)))], modifies=['g:V.flags', 'g.$wla'],
    assume=lambda v, a: [Path(v.g).defs(), Path(v.g).seldef()], loops={'_TestPath:0': LoopAnn(tp_inv, scan_var(lambda c: c.X.args.U))}, configs=('rel', 'dbg'), ensures=tp_post)
# ---------------------------------------------------------------- obstructions: image vertices, K5, K33, K4
from cdv.contract import SymMem
from .isol import VL, vfc, vfk
contract('_ClearVertexVisitedFlags@real', [('g', 'g'), ('virt', 'int')], alias='_ClearVertexVisitedFlags', prop=P, modular=True, conc_ok=False, use=(), modifies=['g:V.flags'], requires=lambda v, a: gwf(v, a) + [('real vertices only', Eq(a.virt, 0))], loops={'_ClearVertexVisitedFlags@real:' + k.split(':')[1]: x for k, x in VL.items() if '_ClearVertexV' in k}, configs=('rel', 'dbg'),
    ensures=lambda o, n, a, r: [('vertices are unmarked, no other flag changes', vfc(o.g, n.g, 1, 1 + o.g.N)), ('virtual vertices keep theirs', vfk(o.g, n.g, 1 + o.g.N, o.g.nv)), ('no vertex is marked', V(n.g, lambda w: Not(vis(n.g, w)), lambda w: [n.g.vf(w)]))])
def tot(*x): return reduce(lambda a, b: a + b, x)
slot = gh('fin'); wi = gh('wlp'); wj = gh('tarc')
class Count:
    def __init__(s, g): s.g = g; k = '.%d' % g.h.b.id; s.c = lambda d, v: t.app('cnt_deg' + k, (t.I(d), t.I(v)), 'Int')
    def all(s, d): return s.c(d, 1 + s.g.N)
    def w(s, d): return t.app('cnt_wit.%d' % s.g.h.b.id, (t.I(d),), 'Int')
    def defs(s):
        g = s.g; R = range(5)
        return [('definition of the number of vertices of a degree before a vertex', And(*[Eq(s.c(d, 1), 0) for d in R], V(g, lambda v: And(*[Eq(s.c(d, v + 1), s.c(d, v) + Ite(Eq(g.deg(v), d), 1, 0)) for d in R]), lambda v: [g.deg(v)]))),
            ('induction: counts do not decrease', V(g, lambda v: And(*[And(Le(0, s.c(d, v)), Le(s.c(d, v + 1), s.all(d))) for d in R]), lambda v: [g.deg(v)])), ('induction: a positive count has a vertex of the degree', And(*[Implies(Lt(0, s.all(d)), Le(1, s.w(d)), Le(s.w(d), g.N), Eq(g.deg(s.w(d)), d)) for d in R]))]
def img(g, w): return And(Le(1, w), Le(w, g.N), Lt(2, g.deg(w)))
def arr(c, nm, st=None): p = c.v(nm); m = SymMem(c.X, st or c.st); return lambda i: m.at(p, (), i)
def kept(o, n): return keeps(o, n)
def i_inv(c):
    o, n = og(c), ng(c); v = c.v('v'); D = arr(c, 'degrees'); I_ = arr(c, 'imageVerts'); m = c.v('imageVertPos'); mx = c.v('maxNumImageVerts'); md = c.v('maxDegree'); C = Count(o)
    return [Le(1, v, 1 + o.N), Le(0, m, mx)] + [Implies(Le(d, md), Eq(D(d), C.c(d, v)), Le(0, D(d)), Le(D(d), v - 1)) for d in range(5)] + [('every vertex was counted', Eq(tot(*[C.c(d, v) for d in range(5)]), v - 1)), ('no vertex of degree one', Eq(C.c(1, v), 0)), ('none above the maximum', Implies(Eq(md, 3), Eq(C.c(4, v), 0))),
        ('image vertices counted', Eq(m, C.c(3, v) + C.c(4, v))), ('degrees of the vertices passed', All(1, v, lambda w: And(Ne(o.deg(w), 1), Le(0, o.deg(w), md)), pat=lambda w: [o.deg(w)]))] + slots(o, n, I_, m, v)
def slots(o, n, I_, m, v): return [('the slots hold image vertices', All(0, m, lambda k: And(img(o, I_(k)), Lt(I_(k), v), Eq(slot(n, I_(k)), k)), pat=lambda k: [I_(k)])), ('every image vertex has a slot', All(1, v, lambda w: Implies(Lt(2, o.deg(w)), Le(0, slot(n, w)), Lt(slot(n, w), m), Eq(I_(slot(n, w)), w)), pat=lambda w: [[o.deg(w)], [slot(n, w)]]))]
def i_step(c):
    n = ng(c); v = c.v('v', c.head); m0, m1 = c.v('imageVertPos', c.head), c.v('imageVertPos'); upd(c, n, 'fin', lambda w, old: Ite(And(Ne(m0, m1), Eq(w, v)), m0, old))
def pairdone(I_, p, o, done): return All2(0, lambda: 0, 0, lambda i: 0, done)
def cover(o, n, done):
    """marked vertices are inner vertices of the paths between the image vertices done"""
    p = Path(o); return V(o, lambda w: Implies(vis(n, w), img(o, wi(n, w)), img(o, wj(n, w)), Ne(wi(n, w), wj(n, w)), Ne(p.sel(wi(n, w), wj(n, w)), NIL), inner_arc(o, p, p.sel(wi(n, w), wj(n, w)), w, seen(n, w)), done(slot(n, wi(n, w)), slot(n, wj(n, w)))), lambda w: [[n.vf(w)], [seen(n, w)]])
def paths(o, n, I_, lo, hi, done):
    p = Path(o); q = [t.bvar('i'), t.bvar('j')]
    return [('pairs done are joined by a path', All2(lo, hi, lo, lambda i: hi, lambda i, j: Implies(And(Ne(i, j), done(i, j)), Ne(p.sel(I_(i), I_(j)), NIL)), pat=lambda i, j: [[I_(i), I_(j)]])),
        ('the inner vertices of their paths are marked', All2(lo, hi, lo, lambda i: hi, lambda i, j: Implies(And(Ne(i, j), done(i, j)), arcq(o, lambda x: Implies(And(p.on(p.sel(I_(i), I_(j)), x), deg2(o, o.nbr(x))), vis(n, o.nbr(x))))), pat=lambda i, j: [[I_(i), I_(j)]])), ('only they are marked', cover(o, n, done))]
def c_done(c, inner):
    v, w = c.v('v'), c.v('w') if inner else 0; return lambda i, j: Or(Lt(i, v), And(Eq(i, v), Lt(j, w)))
def c_inv(inner):
    def f(c):
        o, n = og(c), ng(c); I_ = arr(c, 'imageVerts'); k = c.v('numVerts'); v = c.v('v')
        return [Le(0, v), Lt(v, k) if inner else Le(v, k)] + ([Le(0, c.v('w')), Le(c.v('w'), k)] if inner else []) + paths(o, n, I_, 0, k, c_done(c, inner)) + keeps(o, n)
    return f
def c_step(c):
    n = ng(c); h = c.X.views_of(c.head).g; I_ = arr(c, 'imageVerts'); U, W = I_(c.v('v')), I_(c.v('w', c.head)); new = lambda x: And(vis(n, x), Not(vis(h, x)))
    upd(c, n, 'wlp', lambda x, old: Ite(new(x), U, old)); upd(c, n, 'tarc', lambda x, old: Ite(new(x), W, old))
def cnt_inv(c):
    o, n = og(c), ng(c); C = Count(o); D = arr(c, 'degrees'); D0 = arr(c, 'degrees', c.entry); v = c.v('v')
    return [Le(1, v, 1 + o.N), ('other counts stay', And(*[Eq(D(d), D0(d)) for d in (0, 1, 3)])), Eq(D0(2), C.all(2)), ('left over: not below the number of vertices of degree two to come', Le(C.all(2) - C.c(2, v), D(2))),
        ('equal exactly if those passed are all marked', Iff(Eq(D(2), C.all(2) - C.c(2, v)), All(1, v, lambda w: Implies(deg2(o, w), vis(n, w)), pat=lambda w: [[n.vf(w)], [o.deg(w)]]))), Le(C.c(2, v), v - 1), Le(D(2), C.all(2))]
def onpath(o, n): p = Path(o); b = lambda w: p.sel(wi(n, w), wj(n, w)); return V(o, lambda w: Implies(vis(n, w), inner_arc(o, p, b(w), w, seen(n, w)), img(o, wi(n, w)), img(o, wj(n, w)), Ne(wi(n, w), wj(n, w)), Ne(b(w), NIL)), lambda w: [[n.vf(w)]])
def allmarked(o, n): return V(o, lambda w: Implies(deg2(o, w), vis(n, w)), lambda w: [[n.vf(w)], [o.deg(w)]])
def pairs(o, fn, pat): return All2(1, 1 + o.N, 1, lambda i: 1 + o.N, lambda u, w: Implies(And(img(o, u), img(o, w), Ne(u, w)), fn(u, w)), pat=pat)
class Gen:
    """an arbitrary claim that the graph is a subdivision: for every vertex of degree two two image vertices and an arc on the path that joins them"""
    def __init__(s, g): s.g = g; k = '.%d' % g.h.b.id; s.f = lambda nm: lambda w: t.app('gen_' + nm + k, (t.I(w),), 'Int'); s.u, s.x, s.y, s.z, s.s = s.f('u'), s.f('x'), s.f('y'), s.f('z'), s.f('s')
    def covered(s, joined=lambda u, x, w: True):
        g = s.g; p = Path(g); return V(g, lambda w: Implies(deg2(g, w), img(g, s.u(w)), img(g, s.x(w)), Ne(s.u(w), s.x(w)), joined(s.u(w), s.x(w), w), Ne(p.sel(s.u(w), s.x(w)), NIL), g.live(s.y(w)), p.on(p.sel(s.u(w), s.x(w)), s.y(w)), Eq(g.nbr(s.y(w)), w)), lambda w: [g.deg(w)])
def degs(g, *ds): return V(g, lambda w: Or(*[Eq(g.deg(w), d) for d in ds]), lambda w: [g.deg(w)])
def complete(o, k):
    """degrees of a subdivision of the complete graph on k vertices; every two image vertices are joined by a path"""
    p = Path(o); return And(degs(o, 0, 2, k - 1), Eq(Count(o).all(k - 1), k), pairs(o, lambda u, w: Ne(p.sel(u, w), NIL), lambda u, w: [[p.sel(u, w)]]))
def gen33(o):
    """subdivision of K3,3: the image vertices are numbered 0..5, two of them are joined by a path exactly if one number is below three; the path from either end"""
    G = Gen(o); p = Path(o); lo = lambda u: Lt(G.s(u), 3)
    return And(degs(o, 0, 2, 3), Eq(Count(o).all(3), 6), V(o, lambda w: Implies(img(o, w), Le(0, G.s(w), 5)), lambda w: [[G.s(w)], [o.deg(w)]]), pairs(o, lambda u, w: Ne(G.s(u), G.s(w)), lambda u, w: [[G.s(u), G.s(w)]]),
        pairs(o, lambda u, w: Iff(Ne(p.sel(u, w), NIL), Not(Iff(lo(u), lo(w)))), lambda u, w: [[p.sel(u, w)]]), G.covered(lambda u, x, w: And(lo(u), Not(lo(x)), g_on(o, p.sel(x, u), G.z(w), w))))
def g_on(o, b, y, w): return And(Ne(b, NIL), o.live(y), Path(o).on(b, y), Eq(o.nbr(y), w))
def inner_marked(o, n, cond): p = Path(o); return pairs(o, lambda u, w: Implies(And(cond(u, w), Ne(p.sel(u, w), NIL)), arcq(o, lambda x: Implies(And(p.on(p.sel(u, w), x), deg2(o, o.nbr(x))), vis(n, o.nbr(x))))), lambda u, w: [[p.sel(u, w)]])
def part_lem(c):
    o, n = og(c), ng(c); I_ = arr(c, 'imageVerts'); G = Gen(o); p = Path(o); R = range(6); lo = lambda k: Lt(G.s(I_(k)), 3); gl = lambda x: Implies(gen33(o), x)
    L = [And(*[And(img(o, I_(k)), Eq(slot(n, I_(k)), k)) for k in R]), gl(And(*[Le(0, G.s(I_(k)), 5) for k in R] + [Ne(G.s(I_(i)), G.s(I_(j))) for i in R for j in range(i)])), And(*[Ne(p.sel(I_(k), I_(0)), NIL) for k in (3, 4, 5)]), gl(And(*[Not(Iff(lo(k), lo(0))) for k in (3, 4, 5)])), gl(And(*[Iff(lo(k), lo(0)) for k in (1, 2)])),
        gl(And(*[Ne(p.sel(I_(i), I_(j)), NIL) for i in (0, 1, 2) for j in (3, 4, 5)])), gl(All2(0, 3, 3, lambda i: 6, lambda i, j: Implies(And(Or(*[Eq(i, k) for k in (0, 1, 2)]), Or(*[Eq(j, k) for k in (3, 4, 5)])), Ne(p.sel(I_(i), I_(j)), NIL)), pat=lambda i, j: [[I_(i), I_(j)]]))]
    return [('', x, x) for x in L]
def acc33(o, n): return And(*acc33s(o, n))
def acc33s(o, n):
    p = Path(o); return [degs(o, 0, 2, 3), Eq(Count(o).all(3), 6), V(o, lambda w: Implies(img(o, w), Le(0, slot(n, w), 5)), lambda w: [[slot(n, w)], [o.deg(w)]]), pairs(o, lambda u, w: Ne(slot(n, u), slot(n, w)), lambda u, w: [[slot(n, u), slot(n, w)]]), pairs(o, lambda u, w: Implies(And(Lt(slot(n, u), 3), Le(3, slot(n, w))), Ne(p.sel(u, w), NIL)), lambda u, w: [[p.sel(u, w)]])]
def part_inv(c):
    o, n = og(c), ng(c); p = Path(o); I_ = arr(c, 'imageVerts'); pos = c.v('imageVertPos')
    return [Le(3, pos, 6)] + slots(o, n, I_, 6, 1 + o.N) + [('the last ones are joined to the first', All(3, pos, lambda k: Ne(p.sel(I_(k), I_(0)), NIL), pat=lambda k: [I_(k)]))] + keeps(o, n)
def part_step(c):
    n = ng(c); I_ = arr(c, 'imageVerts'); upd(c, n, 'fin', lambda w, old: reduce(lambda e, k: Ite(Eq(w, I_(k)), k, e), range(5, -1, -1), old))
def b_done(c, inner):
    v, w = c.v('imageVertPos'), c.v('K') if inner else 0; return lambda i, j: And(Lt(i, 3), Le(3, j), Or(Lt(i, v), And(Eq(i, v), Lt(j, w))))
def b_inv(inner):
    def f(c):
        o, n = og(c), ng(c); I_ = arr(c, 'imageVerts'); v = c.v('imageVertPos')
        return [Le(0, v), Lt(v, 3) if inner else Le(v, 3)] + ([Le(3, c.v('K')), Le(c.v('K'), 6)] if inner else []) + paths(o, n, I_, 0, 6, b_done(c, inner)) + keeps(o, n)
    return f
def b_step(c):
    n = ng(c); h = c.X.views_of(c.head).g; I_ = arr(c, 'imageVerts'); U, W = I_(c.v('imageVertPos')), I_(c.v('K', c.head)); new = lambda x: And(vis(n, x), Not(vis(h, x)))
    upd(c, n, 'wlp', lambda x, old: Ite(new(x), U, old)); upd(c, n, 'tarc', lambda x, old: Ite(new(x), W, old))
def cnt_lem(c): o = og(c); C = Count(o); v = c.v('v'); x = Implies(Le(v, o.N), Eq(C.c(2, v + 1), C.c(2, v) + Ite(Eq(o.deg(v), 2), 1, 0))); return [('', x, x)]
def k5_lem(c): o = og(c); return [('', x, x) for x in (degs(o, 0, 2, c.v('numVerts') - 1), complete(o, c.v('numVerts')), inner_marked(o, ng(c), lambda u, w: True), onpath(o, ng(c)))] + cnt_lem(c)
def k33_lem(c):
    o, n = og(c), ng(c); I_ = arr(c, 'imageVerts'); G = Gen(o); p = Path(o); lo = lambda u: Lt(G.s(u), 3); gl = lambda x: Implies(gen33(o), x)
    ground = And(*[And(img(o, I_(k)), Eq(slot(n, I_(k)), k)) for k in (0, 3)] + [Ne(p.sel(I_(0), I_(3)), NIL)])
    sides = [gl(Not(Iff(lo(I_(0)), lo(I_(3))))), gl(V(o, lambda u: Implies(And(img(o, u), Lt(slot(n, u), 3)), Ne(p.sel(u, I_(3)), NIL), Iff(lo(u), lo(I_(0)))), lambda u: [[slot(n, u)], [o.deg(u)]])), gl(V(o, lambda u: Implies(And(img(o, u), Le(3, slot(n, u))), Ne(p.sel(I_(0), u), NIL), Iff(lo(u), lo(I_(3)))), lambda u: [[slot(n, u)], [o.deg(u)]]))]
    return [('', x, x) for x in (*acc33s(o, n), onpath(o, n), inner_marked(o, n, lambda u, w: And(Lt(slot(n, u), 3), Le(3, slot(n, w)))), ground, *sides, gl(V(o, lambda w: Implies(deg2(o, w), vis(n, w)), lambda w: [[n.vf(w)], [o.deg(w)]])))] + cnt_lem(c)
M3 = ('wla', 'wlp', 'tarc'); K33 = '_TestForK33GraphObstruction:'
OBL = {'_getImageVertices:2': LoopAnn(i_inv, lambda c: og(c).N + 1 - c.v('v'), ghost_step=i_step, ghosts=('fin',)),
    '_TestForCompleteGraphObstruction:0': LoopAnn(c_inv(False), lambda c: c.v('numVerts') - c.v('v'), ghosts=M3), '_TestForCompleteGraphObstruction:1': LoopAnn(c_inv(True), lambda c: c.v('numVerts') - c.v('w'), ghost_step=c_step, ghosts=M3),
    '_TestForCompleteGraphObstruction:2': LoopAnn(cnt_inv, lambda c: og(c).N + 1 - c.v('v'), lemmas=k5_lem),
    K33 + '0': LoopAnn(part_inv, lambda c: 6 - c.v('imageVertPos'), ghost_step=part_step, ghosts=('wla', 'fin')), K33 + '2': LoopAnn(b_inv(False), lambda c: 3 - c.v('imageVertPos'), ghosts=M3, lemmas=part_lem), K33 + '3': LoopAnn(b_inv(True), lambda c: 6 - c.v('K'), ghost_step=b_step, ghosts=M3),
    K33 + '4': LoopAnn(cnt_inv, lambda c: og(c).N + 1 - c.v('v'), lemmas=k33_lem)}
def kur_post(o, n, a, r):
    o, n = o.g, n.g
    return [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK))), ('accepted: five vertices of degree four, joined pairwise, or six of degree three, three joined to three', Implies(Eq(r, OK), Ite(Eq(Count(o).all(4), 5), complete(o, 5), acc33(o, n)))), ('accepted: every vertex of degree two is marked', Implies(Eq(r, OK), allmarked(o, n))), ('accepted: what is marked lies on one of the paths', Implies(Eq(r, OK), onpath(o, n))),
        ('no subdivision of K5 is refused', Implies(Eq(r, NOTOK), Not(And(complete(o, 5), Gen(o).covered())))), ('no subdivision of K3,3 is refused', Implies(Eq(r, NOTOK), Not(gen33(o))))] + keeps(o, n)
contract('_CheckKuratowskiSubgraphIntegrity', [('g', 'g')], prop=P, modular=True, conc_ok=False, use=('_TestPath', 'gp_GetVertexDegree', '_ClearVertexVisitedFlags@real'), requires=lambda v, a: gwf(v, a) + [real(v.g, 'the graph')], modifies=['g:V.flags'] + ['g.$' + x for x in ('wla', 'wlp', 'tarc', 'fin')],
    assume=lambda v, a: [Path(v.g).defs(), Path(v.g).seldef()] + Count(v.g).defs(), loops=OBL, ensures=kur_post, configs=('rel', 'dbg'))
# ---------------------------------------------------------------- K4, K2,3: paths from a vertex of degree two next to an image vertex
def st(g, e): return t.app('path_before.%d' % g.h.b.id, (t.I(e),), 'Int')
def bdef(g): return ('definition: the arc from a vertex of another degree that the arc of a vertex of degree two continues', arcq(g, lambda b: Implies(And(deg2(g, g.nbr(b)), Not(deg2(g, g.own(b)))), Eq(st(g, step(g, b)), b))))
def cont(g, e): b = st(g, e); return And(g.arc(b), g.live(b), deg2(g, g.nbr(b)), Not(deg2(g, g.own(b))), Eq(step(g, b), e), Eq(g.nbr(b), g.own(e)))
def good(g, e): return Or(Not(deg2(g, g.nbr(e))), cont(g, e))
def p2_pre(v, a): g = v.g; return gwf(v, a) + [real(g, 'the graph'), g.arc(a.e), g.live(a.e), ('the path is short or continues one from a vertex of another degree', good(g, a.e))]
def t2_inv(c):
    o, n = og(c), ng(c); p = Path(o); a = c.X.args.e; b = st(o, a); e = c.v('e')
    return [n.live(e), Eq(c.v('nextVertex'), o.nbr(e)), Or(Eq(e, a), And(deg2(o, o.nbr(a)), p.on(b, e), Le(1, p.rank(b, e)))), ('the rest of the path has the same end', Eq(p.end(e), p.end(a)))]
def p2_lem(c):
    o = og(c); p = Path(o); a = c.X.args.e; b = st(o, a); x = p_lem_x(o); y = lambda f: Implies(deg2(o, o.nbr(a)), f); z = y(And(p.on(b, b), Eq(p.rank(b, b), 0), p.on(b, a), Eq(p.rank(b, a), 1)))
    e = c.v('e'); q = y(arcq(o, lambda f: Implies(And(p.on(b, f), Eq(p.rank(b, f), p.rank(b, e))), Eq(f, e)))); w = y(Implies(deg2(o, o.nbr(e)), p.on(b, step(o, e)), Eq(p.rank(b, step(o, e)), p.rank(b, e) + 1), Ne(step(o, e), a)))
    return p_lem_0(o) + [('', x, x), (CH, y(p.inj(b)), y(p.chain(b))), ('', z, z), ('', q, q), ('', w, w)]
def p_lem_0(o):
    tw = arcq(o, lambda e: Implies(deg2(o, o.nbr(e)), o.live(Xor1(e)), Eq(o.own(Xor1(e)), o.nbr(e)), Or(Eq(o.pos(Xor1(e)), 0), Eq(o.pos(Xor1(e)), 1)), Eq(o.at(o.nbr(e), o.pos(Xor1(e))), Xor1(e))))
    en = arcq(o, lambda e: Implies(deg2(o, o.nbr(e)), Eq(o.first(o.nbr(e)), o.at(o.nbr(e), 0)), Eq(o.last(o.nbr(e)), o.at(o.nbr(e), 1)), o.live(o.first(o.nbr(e))), o.live(o.last(o.nbr(e))), Eq(o.own(o.first(o.nbr(e))), o.nbr(e)), Eq(o.own(o.last(o.nbr(e))), o.nbr(e)), Ne(o.first(o.nbr(e)), o.last(o.nbr(e)))))
    return [('', tw, tw), ('', en, en)]
def p_lem_x(o): return arcq(o, lambda e: Implies(deg2(o, o.nbr(e)), o.live(step(o, e)), Eq(o.own(step(o, e)), o.nbr(e)), Ne(step(o, e), Xor1(e)), Or(Eq(Xor1(e), o.first(o.nbr(e))), Eq(Xor1(e), o.last(o.nbr(e))))))
def p2_var(c): o = og(c); p = Path(o); b = st(o, c.X.args.e); return Ite(deg2(o, o.nbr(c.X.args.e)), p.len(b) - p.rank(b, c.v('e')), 0)
D2 = lambda v, a: [Path(v.g).defs(), bdef(v.g)]
contract('_TryPath@two', [('g', 'g'), ('e', 'arc'), ('V', 'int')], alias='_TryPath', prop=P, modular=True, conc_ok=False, use=(), requires=p2_pre, assume=D2, loops={'_TryPath@two:0': LoopAnn(t2_inv, p2_var, lemmas=p2_lem)}, configs=('rel', 'dbg'),
    ensures=lambda o, n, a, r: [('TRUE exactly if the path ends in V', Eq(r, Ite(Eq(Path(o.g).end(a.e), a.V), 1, 0)))])
def mark2(o, n, a, k=None):
    p = Path(o); b = st(o, a); D = deg2(o, o.nbr(a)); lim = lambda x: True if k is None else Lt(p.rank(b, x), k)
    return [('the vertices of degree two on the path are marked', Implies(D, arcq(o, lambda x: Implies(And(p.on(b, x), Le(1, p.rank(b, x)), lim(x), deg2(o, o.nbr(x))), vis(n, o.nbr(x)))))),
        ('no other vertex was marked', V(o, lambda w: Implies(vis(n, w), Or(vis(o, w), And(D, Le(1, p.rank(b, seen(n, w))), inner_arc(o, p, b, w, seen(n, w), k)))), lambda w: [[n.vf(w)], [seen(n, w)]])), ('marks stay', V(o, lambda w: Implies(vis(o, w), vis(n, w), Eq(seen(n, w), seen(o, w))), lambda w: [n.vf(w)]))] + keeps(o, n)
contract('_MarkPath@two', [('g', 'g'), ('e', 'arc')], alias='_MarkPath', prop=P, modular=True, conc_ok=False, use=(), requires=p2_pre, modifies=['g:V.flags', 'g.$wla'], assume=D2, loops={'_MarkPath@two:0': LoopAnn(lambda c: t2_inv(c) + mark2(og(c), ng(c), c.X.args.e, Ite(Eq(c.v('e'), c.X.args.e), 1, Path(og(c)).rank(st(og(c), c.X.args.e), c.v('e')))), p2_var, ghost_step=k_step, ghosts=('wla',), lemmas=p2_lem)}, configs=('rel', 'dbg'), ensures=lambda o, n, a, r: mark2(o.g, n.g, a.e))
def tp2_post(o, n, a, r):
    o, n = o.g, n.g; p = Path(o); b = p.sel(a.U, a.V)
    return [('TRUE exactly if there is a path', Eq(r, Ite(Ne(b, NIL), 1, 0)))] + [(l, Implies(Ne(b, NIL), x)) for l, x in mark2(o, n, b)] + [('without a path nothing is marked', Implies(Eq(b, NIL), same_marks(o, n)[0][1]))]
contract('_TestPath@two', [('g', 'g'), ('U', 'vert'), ('V', 'vert')], alias='_TestPath', prop=P, modular=True, conc_ok=False, use=('_TryPath@two', '_MarkPath@two'), requires=lambda v, a: gwf(v, a) + [real(v.g, 'the graph'), v.g.prim(a.U), v.g.prim(a.V), ('the paths of U are short or continue one', arcq(v.g, lambda e: Implies(Eq(v.g.own(e), a.U), good(v.g, e))))], modifies=['g:V.flags', 'g.$wla'],
    assume=lambda v, a: D2(v, a) + [Path(v.g).seldef()], loops={'_TestPath@two:0': LoopAnn(tp_inv, scan_var(lambda c: c.X.args.U))}, configs=('rel', 'dbg'), ensures=tp2_post)
def K23(c): I_ = arr(c, 'imageVerts'); return I_(0), I_(1), I_
def slots2(o, n, I_): return slots(o, n, I_, 2, 1 + o.N)
def pre23(c): o, n = og(c), ng(c); A, B, I_ = K23(c); return slots2(o, n, I_) + [('three arcs', And(Eq(o.deg(A), 3), Eq(o.deg(B), 3), Ne(A, B), img(o, A), img(o, B)))]
def spos2(o, A, e): return Ite(Eq(e, NIL), lambda: o.deg(A), lambda: o.pos(e))
def nb_inv(c):
    o, n = og(c), ng(c); A, B, I_ = K23(c); e = c.v('e'); p = spos2(o, A, e)
    return pre23(c) + [('cursor', Or(Eq(e, NIL), And(n.live(e), Eq(n.own(e), A)))), Eq(c.v('imageVertPos'), 2 + p), ('neighbors so far', All(0, p, lambda k: And(Eq(I_(2 + k), o.nbr(o.at(A, k))), Ne(o.nbr(o.at(A, k)), B)), pat=lambda k: [o.at(A, k)]))] + keeps(o, n)
def d23(c, k):
    """the paths of the first k arcs of the first image vertex have been tested"""
    o, n = og(c), ng(c); A, B, I_ = K23(c); p = Path(o); done = lambda e: And(Eq(o.own(e), A), Lt(o.pos(e), k))
    return pre23(c) + [('the other image vertices are the neighbors of the first', All(0, 3, lambda j: And(Eq(I_(2 + j), o.nbr(o.at(A, j))), Ne(o.nbr(o.at(A, j)), B)), pat=lambda j: [o.at(A, j)])), ('the paths tested end in the second', arcq(o, lambda e: Implies(done(e), Eq(p.end(e), B)))),
        ('their vertices are marked', arcq(o, lambda e: Implies(done(e), arcq(o, lambda x: Implies(And(p.on(e, x), deg2(o, o.nbr(x))), vis(n, o.nbr(x))))))),
        ('every mark has an arc tested', V(o, lambda w: Implies(vis(n, w), o.live(wi(n, w)), done(wi(n, w))), lambda w: [[n.vf(w)]])), ('only they are marked', V(o, lambda w: Implies(vis(n, w), inner_arc(o, p, wi(n, w), w, seen(n, w))), lambda w: [[n.vf(w)]]))] + keeps(o, n)
def r_inv(c): return [Le(2, c.v('imageVertPos'), 5)] + d23(c, c.v('imageVertPos') - 2)
def r_lem(c):
    o = og(c); A, B, I_ = K23(c); p = Path(o); k = c.v('imageVertPos') - 2; b = o.at(A, k); g = lambda x: Implies(Lt(k, 3), x); x = p_lem_x(o); U = o.nbr(b); tw = Xor1(b); sp = step(o, b)
    y = g(And(o.live(b), Eq(o.own(b), A), Eq(o.pos(b), k), deg2(o, U), Ne(U, B), Eq(I_(k + 2), U)))
    z = g(And(p.on(b, b), Eq(p.rank(b, b), 0), p.on(b, sp), Eq(p.rank(b, sp), 1), Eq(st(o, sp), b), good(o, sp), o.live(tw), Eq(o.own(tw), U), Eq(o.nbr(tw), A), Eq(p.end(tw), A), Eq(p.end(sp), p.end(b))))
    w = g(And(arcq(o, lambda f: Implies(Eq(o.own(f), U), Or(Eq(f, tw), Eq(f, sp)))), Ite(Eq(p.end(b), B), Eq(p.sel(U, B), sp), Eq(p.sel(U, B), NIL))))
    zero = g(arcq(o, lambda f: Implies(And(p.on(b, f), Lt(p.rank(b, f), 1)), Eq(f, b))))
    q = g(And(o.live(b), Eq(o.own(b), A), Eq(o.pos(b), k), o.live(tw), Eq(o.own(tw), U), Lt(o.pos(tw), o.deg(U)), Le(0, o.pos(tw)), Ne(U, A), Ne(U, B), Eq(I_(k + 2), U)))
    return p_lem_0(o) + [('', x, x), ('', q, q), ('', y, y), (CH, g(p.inj(b)), g(p.chain(b))), ('', z, z), ('', w, w), ('', zero, zero)]
def r_step(c):
    o, n = og(c), ng(c); h = c.X.views_of(c.head).g; A, B, I_ = K23(c); b = o.at(A, c.v('imageVertPos', c.head) - 2); new = lambda x: Not(vis(h, x))
    upd(c, n, 'wlp', lambda x, old: Ite(new(x), b, old)); A = c.st.mem[(n.h.b.id, ('$wla',))]; n.m.ghostset(n.h, 'wla', lambda x: Ite(And(new(x), Eq(x, o.nbr(b))), b, A.read(x)))
def acc23s(o, n):
    p = Path(o); return [degs(o, 0, 2, 3), Eq(Count(o).all(3), 2), V(o, lambda w: Implies(img(o, w), Le(0, slot(n, w), 1)), lambda w: [[slot(n, w)], [o.deg(w)]]), pairs(o, lambda u, w: Ne(slot(n, u), slot(n, w)), lambda u, w: [[slot(n, u), slot(n, w)]]),
        pairs(o, lambda u, w: Implies(Eq(slot(n, u), 0), arcq(o, lambda e: Implies(Eq(o.own(e), u), Ne(o.nbr(e), w), Eq(p.end(e), w)))), lambda u, w: [[slot(n, u), slot(n, w)]])]
def on23(o, n): p = Path(o); return V(o, lambda w: Implies(vis(n, w), o.live(wi(n, w)), img(o, o.own(wi(n, w))), Eq(slot(n, o.own(wi(n, w))), 0), inner_arc(o, p, wi(n, w), w, seen(n, w))), lambda w: [[n.vf(w)]])
def gen23(o):
    """subdivision of K2,3: the arcs of each image vertex start paths to the other with inner vertices, and every vertex of degree two lies on them, seen from either end"""
    k = '.%d' % o.h.b.id; p = Path(o); F = lambda nm: lambda u, w: t.app('gen23_' + nm + k, (t.I(u), t.I(w)), 'Int'); gu, gz = F('u'), F('z')
    return And(degs(o, 0, 2, 3), Eq(Count(o).all(3), 2), pairs(o, lambda u, w: arcq(o, lambda e: Implies(Eq(o.own(e), u), Ne(o.nbr(e), w), Eq(p.end(e), w))), lambda u, w: [[o.deg(u), o.deg(w)]]),
        All2(1, 1 + o.N, 1, lambda i: 1 + o.N, lambda u, w: Implies(And(img(o, u), deg2(o, w)), o.live(gu(u, w)), Eq(o.own(gu(u, w)), u), g_on(o, gu(u, w), gz(u, w), w)), pat=lambda u, w: [[o.deg(u), o.deg(w)]]))
def k23_lem(c):
    o, n = og(c), ng(c); A, B, I_ = K23(c); x = Implies(gen23(o), V(o, lambda w: Implies(deg2(o, w), vis(n, w)), lambda w: [[n.vf(w)], [o.deg(w)]])); return [('', y, y) for y in (*acc23s(o, n), on23(o, n), x)] + cnt_lem(c)
KK = '_TestForK23GraphObstruction:'
def cnt2_inv(c): o, n = og(c), ng(c); return cnt_inv(c)
OBO = {k: x for k, x in OBL.items() if 'K33' not in k}
OBO.update({KK + '0': LoopAnn(nb_inv, lambda c: og(c).deg(K23(c)[0]) - spos2(og(c), K23(c)[0], c.v('e')), ghosts=()), KK + '1': LoopAnn(r_inv, lambda c: 5 - c.v('imageVertPos'), ghost_step=r_step, ghosts=('wla', 'wlp'), lemmas=r_lem), KK + '2': LoopAnn(cnt_inv, lambda c: og(c).N + 1 - c.v('v'), lemmas=k23_lem)})
def out_post(o, n, a, r):
    o, n = o.g, n.g; C3 = Count(o).all(3)
    return [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK))), ('accepted: four vertices of degree three, joined pairwise, or two with three paths through other vertices', Implies(Eq(r, OK), Ite(Eq(C3, 4), complete(o, 4), And(*acc23s(o, n))))), ('accepted: every vertex of degree two is marked', Implies(Eq(r, OK), allmarked(o, n))), ('accepted: what is marked lies on one of the paths', Implies(Eq(r, OK), Ite(Eq(C3, 4), onpath(o, n), on23(o, n)))),
        ('no subdivision of K4 is refused', Implies(Eq(r, NOTOK), Not(And(complete(o, 4), Gen(o).covered())))), ('no subdivision of K2,3 is refused', Implies(Eq(r, NOTOK), Not(gen23(o))))] + keeps(o, n)
contract('_CheckOuterplanarObstructionIntegrity', [('g', 'g')], prop=P, modular=True, conc_ok=False, use=('_TestPath', '_TestPath@two<_TestForK23GraphObstruction', 'gp_GetVertexDegree', '_ClearVertexVisitedFlags@real'), requires=lambda v, a: gwf(v, a) + [real(v.g, 'the graph'), ('no edge joins a vertex to itself', arcq(v.g, lambda e: Ne(v.g.own(e), v.g.nbr(e))))], modifies=['g:V.flags'] + ['g.$' + x for x in ('wla', 'wlp', 'tarc', 'fin')],
    assume=lambda v, a: [Path(v.g).defs(), Path(v.g).seldef(), bdef(v.g)] + Count(v.g).defs(), loops=OBO, ensures=out_post, configs=('rel', 'dbg'))
# ---------------------------------------------------------------- _CheckObstructionIntegrity: composition
PLAN, OUTP = 1, 2
def co_post(o, n, a, r):
    s, g = o.s, o.g; x = n.s; C3, C4 = Count(s).all(3), Count(s).all(4); ds = degsum(s)(1 + s.N); pl, op = Eq(s.eflags, PLAN), Eq(s.eflags, OUTP); ok = Eq(r, OK)
    cert = Or(And(pl, Ite(Eq(C4, 5), complete(s, 5), acc33(s, x))), And(op, Ite(Eq(C3, 4), complete(s, 4), And(*acc23s(s, x)))))
    onp = Ite(Or(pl, Eq(C3, 4)), onpath(s, x), on23(s, x))
    no = And(Or(Not(pl), And(Not(And(complete(s, 5), Gen(s).covered())), Not(gen33(s)))), Or(Not(op), And(Not(And(complete(s, 4), Gen(s).covered())), Not(gen23(s)))))
    return [('OK or NOTOK', Or(ok, Eq(r, NOTOK))), ('accepted: same order, consistent edge count', Implies(ok, Eq(s.N, g.N), Eq(ds, 2 * s.M))), ('accepted: every adjacency is one of the original graph', Implies(ok, arcq(s, lambda e: same_adj(s, e, g, wit(x, e))))),
        ('accepted: a subdivision of K5 or K3,3, or for outerplanarity of K4 or K2,3', Implies(ok, cert)), ('accepted: every vertex of degree two is marked', Implies(ok, allmarked(s, x))), ('accepted: what is marked lies on one of the paths', Implies(ok, onp)),
        ('refused only for a reason', Implies(Eq(r, NOTOK), Or(Ne(s.N, g.N), Ne(ds, 2 * s.M), unmatched(s, g), no)))]
for srt in (0, 1):
    x = '@' + ('sorted' if srt else 'unsorted'); k = '_CheckObstructionIntegrity'
    contract(k + x, [('s', 'g'), ('g', 'g')], alias=k, prop=P, modular=True, conc_ok=False, use=('_TestSubgraph' + x, '_CheckKuratowskiSubgraphIntegrity', '_CheckOuterplanarObstructionIntegrity'), ensures=co_post, configs=('rel', 'dbg'),
        requires=(lambda srt: lambda v, a: ts_pre(srt)(v, a) + [('no edge joins a vertex to itself', arcq(v.s, lambda e: Ne(v.s.own(e), v.s.nbr(e))))])(srt), modifies=['s:V.flags', 'g:V.flags'] + ['%s.$%s' % (q, y) for q in 'sg' for y in ('ord', 'wla', 'wlp', 'tarc', 'fin')])
# ---------------------------------------------------------------- gp_TestEmbedResultIntegrity: the checker that belongs to the result
from .certp import ci_pre, ci_post
NE = -1
def ti_post(o, n, a, r):
    ok, ne = Eq(a.res, OK), Eq(a.res, NE)
    return [('another result is passed on', Implies(Not(Or(ok, ne)), Eq(r, a.res))), ('OK is confirmed or refused', Implies(ok, Or(Eq(r, OK), Eq(r, NOTOK)))), ('NONEMBEDDABLE is confirmed or refused', Implies(ne, Or(Eq(r, NE), Eq(r, NOTOK))))] + \
        [('embedding ' + l, Implies(ok, x)) for l, x in ci_post(o, n, a, r) if l != 'OK or NOTOK'] + [('obstruction ' + l, Implies(ne, x)) for l, x in co_post(o, n, a, Ite(Eq(r, NE), OK, NOTOK)) if l != 'OK or NOTOK']
for srt in (0, 1):
    x = '@' + ('sorted' if srt else 'unsorted'); k = 'gp_TestEmbedResultIntegrity'
    contract(k + x, [('s', 'g'), ('g', 'g'), ('res', 'int')], alias=k, prop=P, modular=False, conc_ok=False, use=('_CheckEmbeddingIntegrity' + x, '_CheckObstructionIntegrity' + x), ensures=ti_post, configs=('rel', 'dbg'),
        requires=(lambda srt: lambda v, a: ci_pre(srt)(v, a) + [('no edge joins a vertex to itself', arcq(v.s, lambda e: Ne(v.s.own(e), v.s.nbr(e))))])(srt), modifies=['s:V.flags', 'g:V.flags', 's:E.flags', 's:theStack.size', 's:theStack:S'] + ['%s.$%s' % (q, y) for q in 'sg' for y in ('ord', 'wla', 'wlp', 'tarc', 'fin')])
