"""graphTests.c: the certificate checkers under contract (C13)"""
from .dfsp import *
from .dfsp import vis, et, ALL3, SORTED, Z
from .lowp import gh, V, flagset
from .isol import VL
from .graph import scan_var
from cdv.exec import LoopAnn
P = 'C13'
def arcq(g, fn): return All(2, g.bound, lambda e: Implies(g.live(e), fn(e)), pat=lambda e: [g.live(e)])
def real(g, nm): return ('the edges of %s join vertices' % nm, arcq(g, lambda e: And(Le(1, g.nbr(e)), Le(g.nbr(e), g.N), Le(1, g.own(e)), Le(g.own(e), g.N))))
def degsum(g):
    """(v) the degree sum of the vertices before v"""
    if spec.MODE == 'sym': return lambda v: t.app('degsum.' + str(g.h.b.id), (t.I(v),), 'Int')
    return lambda v: sum(g.deg(w) for w in range(1, int(v)))
def degdef(g): return ('definition of the degree sum', And(Eq(degsum(g)(1), 0), All(1, 1 + g.N, lambda v: Eq(degsum(g)(v + 1), degsum(g)(v) + g.deg(v)), pat=lambda v: [g.deg(v)])))
def degcount(g): return ('counting: the arcs listed are distinct arcs in use', All(1, 2 + g.N, lambda v: Le(degsum(g)(v), 2 * g.M), pat=lambda v: [degsum(g)(v)]))
def same_adj(s, e, g, f): return And(g.live(f), Eq(g.own(f), s.own(e)), Eq(g.nbr(f), s.nbr(e)))
wit = gh('ord'); seen = gh('wla'); clr = gh('wlp')
def OG(c): return c.X.old.s, c.X.old.g
def NG(c): w = c.X.views_of(c.st); return w.s, w.g
def spos_(g, v, e): return Ite(Eq(e, NIL), lambda: g.deg(v), lambda: g.pos(e))
def cur(g, v, e): return ('cursor', Or(Eq(e, NIL), And(g.live(e), Eq(g.own(e), v))))
def clear(g): return ('no vertex is marked', V(g, lambda w: Not(vis(g, w)), lambda w: [g.vf(w)]))
def keeps(o, n): return [('other attributes of vertices are kept', All(1, o.nv, lambda w: Eq(BvClear(n.vf(w), 1), BvClear(o.vf(w), 1)), pat=lambda w: [n.vf(w)]))]
def marked(s, g, v, p):
    """the marks are the neighbors of v in s before position p"""
    return [('neighbors passed are marked', arcq(s, lambda e: Implies(And(Eq(s.own(e), v), Lt(s.pos(e), p)), vis(g, s.nbr(e))))), only(s, g, v, p)]
def only(s, g, v, p): return ('only neighbors are marked', V(g, lambda w: Implies(vis(g, w), And(s.live(seen(g, w)), Eq(s.own(seen(g, w)), v), Lt(s.pos(seen(g, w)), p), Eq(s.nbr(seen(g, w)), w))), lambda w: [g.vf(w)]))
def o_inv(c):
    (so, go), (s, g) = OG(c), NG(c); v = c.v('v')
    return [Le(1, v, 1 + s.N), ('result so far', Eq(c.v('Result'), 1)), clear(g), ('arcs counted', Eq(c.v('degreeCount'), degsum(so)(v))), ('arcs of the vertices passed have a counterpart', arcq(s, lambda e: Implies(Lt(s.own(e), v), same_adj(s, e, g, wit(s, e)))))] + keeps(go, g)
def l1(c):
    (so, go), (s, g) = OG(c), NG(c); v, e = c.v('v'), c.v('e'); p = spos_(s, v, e)
    return [cur(s, v, e), ('result so far', Eq(c.v('Result'), 1)), ('arcs counted', Eq(c.v('degreeCount'), degsum(so)(v) + p))] + marked(s, g, v, p) + keeps(go, g)
def unm(s, g, v, q):
    return [('counterparts passed are unmarked', arcq(g, lambda f: Implies(And(Eq(g.own(f), v), Lt(g.pos(f), q)), Not(vis(g, g.nbr(f)))))),
        ('unmarked neighbors have a counterpart', arcq(s, lambda e: Implies(And(Eq(s.own(e), v), Not(vis(g, s.nbr(e)))), same_adj(s, e, g, clr(g, s.nbr(e))), Lt(g.pos(clr(g, s.nbr(e))), q))))]
def l2(c):
    (so, go), (s, g) = OG(c), NG(c); v, e = c.v('v'), c.v('e'); q = spos_(g, v, e)
    return [cur(g, v, e), ('result so far', Eq(c.v('Result'), 1)), only(s, g, v, s.deg(v))] + unm(s, g, v, q) + keeps(go, g)
def l3(c):
    (so, go), (s, g) = OG(c), NG(c); v, e = c.v('v'), c.v('e'); p = spos_(s, v, e)
    return [cur(s, v, e), ('result so far', Eq(c.v('Result'), 1)), ('neighbors passed were unmarked', arcq(s, lambda x: Implies(And(Eq(s.own(x), v), Lt(s.pos(x), p)), Not(vis(g, s.nbr(x))))))]
def upd(c, g, nm, fn):
    A = c.head.mem[(g.h.b.id, ('$' + nm,))]; g.m.ghostset(g.h, nm, lambda y: fn(y, A.read(y)))
def st1(c):
    s, g = NG(c); e = c.v('e', c.head); upd(c, g, 'wla', lambda w, old: Ite(Eq(w, s.nbr(e)), e, old))
def st2(c):
    s, g = NG(c); e = c.v('e', c.head); upd(c, g, 'wlp', lambda w, old: Ite(Eq(w, g.nbr(e)), e, old))
def sto(c):
    s, g = NG(c); v = c.v('v', c.head); upd(c, s, 'ord', lambda e, old: Ite(Eq(s.own(e), v), clr(g, s.nbr(e)), old))
def sv(which): return lambda c: (lambda x: x.deg(c.v('v')) - spos_(x, c.v('v'), c.v('e')))(NG(c)[which])
def ts_pre(srt): return lambda v, a: v.s.wf() + v.g.wf() + [real(v.s, 'the first graph'), real(v.g, 'the second graph')] + [flagset(x, SORTED) if srt else Eq(Bits(x.iflags, SORTED), Z(0)) for x in (v.s, v.g)]
def matched(o, n): return arcq(o.s, lambda e: same_adj(o.s, e, o.g, wit(n.s, e)))
def unmatched(s, g): return Exists(2, s.bound, lambda e: And(s.live(e), All(2, g.bound, lambda f: Not(same_adj(s, e, g, f)), pat=lambda f: [g.live(f)])))
def ts_post(o, n, a, r):
    s, g = o.s, o.g; eqn = Eq(s.N, g.N); ds = degsum(s)(1 + s.N)
    return [('TRUE or not', Or(Eq(r, 1), Eq(r, 0))), ('different orders are refused', Implies(Not(eqn), Eq(r, 0))), ('accepted: every adjacency has a counterpart', Implies(Eq(r, 1), matched(o, n))), ('accepted: the edge count is the number of listed edges', Implies(Eq(r, 1), Eq(ds, 2 * s.M))),
        ('refused: an adjacency has no counterpart, or the edge count is wrong', Implies(And(Eq(r, 0), eqn), Or(unmatched(s, g), Ne(ds, 2 * s.M))))] + keeps(o.g, n.g)
TSG = ['s.$ord', 'g.$wla', 'g.$wlp']
TSL = [LoopAnn(o_inv, lambda c: 1 + OG(c)[0].N - c.v('v'), ghost_step=sto, ghosts=('ord@s', 'wla@g', 'wlp@g')), LoopAnn(l1, sv(0), ghost_step=st1, ghosts=('wla@g',)), LoopAnn(l2, sv(1), ghost_step=st2, ghosts=('wlp@g',)), LoopAnn(l3, sv(0))]
for srt in (0, 1):
    nm = '_TestSubgraph@' + ('sorted' if srt else 'unsorted')
    contract(nm, [('s', 'g'), ('g', 'g')], alias='_TestSubgraph', prop=P, modular=True, conc_ok=False, use=(), modifies=['g:V.flags'] + TSG, requires=ts_pre(srt), assume=lambda v, a: [degdef(v.s), degcount(v.s)], loops=dict(VL, **{'%s:%d' % (nm, k): x for k, x in enumerate(TSL)}), ensures=ts_post, configs=('rel', 'dbg'))
# ---------------------------------------------------------------- _CheckEmbeddingFacialIntegrity: Euler's formula over the faces of the rotation system
def circ(g, e):
    """next arc of the face of e: the successor of its twin in the rotation"""
    x = Xor1(e); return Ite(Eq(g.next(x), NIL), lambda: g.first(g.own(x)), lambda: g.next(x))
class Faces:
    """faces of the rotation system (orbits of circ), as definitions over the graph at entry"""
    def __init__(s, g):
        k = '.%d' % g.h.b.id; F = lambda nm: lambda *a: t.app('face_' + nm + k, tuple(t.I(x) for x in a), 'Int')
        s.g = g; s.arc = F('arc'); s.ix = F('ix'); s.lead = F('lead'); s.rank = F('rank'); s.len = F('len'); s.mem = F('mem'); s.cnt = F('cnt'); s.trees = F('trees'); s.big = F('big')
    def enum(s):
        g = s.g; n = 2 * g.M
        return ('the arcs in use in ascending order (counting: there are 2M of them)', And(All(0, n, lambda j: And(g.live(s.arc(j)), Eq(s.ix(s.arc(j)), j)), pat=lambda j: [s.arc(j)]), arcq(g, lambda e: And(Le(0, s.ix(e)), Lt(s.ix(e), n), Eq(s.arc(s.ix(e)), e))),
            All2(0, n, 0, lambda i: n, lambda i, j: Implies(Lt(i, j), Lt(s.arc(i), s.arc(j))), pat=lambda i, j: [[s.arc(i), s.arc(j)]])))
    def perm(s):
        g = s.g
        return And(arcq(g, lambda e: g.live(circ(g, e))), All2(2, g.bound, 2, lambda e: g.bound, lambda e, f: Implies(And(g.live(e), g.live(f), Eq(circ(g, e), circ(g, f))), Eq(e, f)), pat=lambda e, f: [[g.live(e), g.live(f)]]))
    def orbits(s):
        g = s.g; ld, rk, ln = s.lead, s.rank, s.len
        return arcq(g, lambda e: And(g.live(ld(e)), Le(e, ld(e)), Eq(ld(ld(e)), ld(e)), Le(0, rk(e)), Lt(rk(e), ln(ld(e))), Iff(Eq(rk(e), 0), Eq(e, ld(e))), Eq(s.mem(ld(e), rk(e)), e), Eq(ld(circ(g, e)), ld(e)),
            Ite(Eq(rk(e) + 1, ln(ld(e))), lambda: Eq(circ(g, e), ld(e)), lambda: Eq(rk(circ(g, e)), rk(e) + 1))))
    def defs(s):
        g = s.g; N = g.N; n = 2 * g.M
        return [('definition of the number of faces led by the arcs from the j-th on', And(Eq(s.cnt(n), 0), All(0, n, lambda j: Eq(s.cnt(j), s.cnt(j + 1) + Ite(Eq(s.lead(s.arc(j)), s.arc(j)), 1, 0)), pat=lambda j: [s.arc(j)]))),
            ('definition of the number of trees and of trees with edges', And(Eq(s.trees(1), 0), Eq(s.big(1), 0), V(g, lambda v: And(Eq(s.trees(v + 1), s.trees(v) + Ite(Eq(g.parent(v), NIL), 1, 0)), Eq(s.big(v + 1), s.big(v) + Ite(And(Eq(g.parent(v), NIL), Lt(0, g.deg(v))), 1, 0))), lambda v: [g.parent(v)])))]
def evis(g, e): return Ne(Bits(g.ef(e), 1), Z(0))
def evc(o, n, lo, hi): return All(lo, hi, lambda e: Eq(BvClear(n.ef(e), 1), BvClear(o.ef(e), 1)), pat=lambda e: [n.ef(e)])
def fi_pre(v, a): return gwf(v, a) + [real(v.g, 'the graph'), ('every edge in use is listed', All(2, v.g.bound, lambda e: Iff(Ne(v.g.nbr(e), NIL), v.g.live(e)), pat=lambda e: [[v.g.nbr(e)], [v.g.live(e)]]))]
def ekeep(o, n): return [('other attributes of edges are kept', evc(o, n, 0, 2 + o.cap)), ('edges not listed keep their flags', All(0, 2 + o.cap, lambda e: Implies(Not(o.live(e)), Eq(n.ef(e), o.ef(e))), pat=lambda e: [n.ef(e)]))]
def f_push(c):
    o, n = og(c), ng(c); F = Faces(o); e = c.v('e'); S = n.stk; sz = S.size
    return [Le(2, e, o.bound), Eq(Mod(e, 2), 0), Le(0, sz, 2 * o.M), ('arcs passed are on the stack in order', All(0, sz, lambda j: And(Eq(S.at(j), F.arc(j)), Lt(F.arc(j), e)), pat=lambda j: [[S.at(j)], [F.arc(j)]])),
        ('the others come later', All(sz, 2 * o.M, lambda j: Le(e, F.arc(j)), pat=lambda j: [F.arc(j)])), ('arcs passed are unmarked', arcq(n, lambda x: Implies(Lt(x, e), Not(evis(n, x)))))] + ekeep(o, n)
def taken(o, F, sz, y): return And(Lt(sz, 2 * o.M), Le(F.arc(sz), y))
def f_face(c):
    o, n = og(c), ng(c); F = Faces(o); S = n.stk; sz = S.size
    return [Le(0, sz, 2 * o.M), ('arcs wait in order', All(0, sz, lambda j: Eq(S.at(j), F.arc(j)), pat=lambda j: [[S.at(j)], [F.arc(j)]])), ('exactly the faces led by the arcs taken are marked', arcq(n, lambda x: Iff(evis(n, x), taken(o, F, sz, F.lead(x))))),
        ('they were counted', Eq(c.v('NumFaces'), F.cnt(sz))), Le(0, c.v('NumFaces'), 2 * o.M - sz)] + ekeep(o, n)
def f_face_lem(c):
    o, S = og(c), ng(c).stk; F = Faces(o); sz = S.size; x = Implies(Lt(0, sz), arcq(o, lambda y: Iff(Le(F.arc(sz - 1), y), Or(taken(o, F, sz, y), Eq(y, F.arc(sz - 1))))))
    return [(ORB, F.perm(), F.orbits()), ('', x, x)]
ORB = 'orbit decomposition of a permutation (finite; every arc lies on the orbit of its largest member and is determined by its rank on it)'
def f_push_lem(c):
    o, n = og(c), ng(c); F = Faces(o); e = c.v('e'); sz = n.stk.size; x = Implies(And(Lt(e, o.bound), Ne(o.nbr(e), NIL)), And(Lt(sz + 1, 2 * o.M), Eq(F.arc(sz), e), Eq(F.arc(sz + 1), e + 1), Eq(Xor1(e), e + 1))); return [('', x, x)]
def f_walk(c):
    o, n = og(c), ng(c); F = Faces(o); S = n.stk; sz = S.size; s, e = c.v('eStart'), c.v('e'); ld, rk = F.lead, F.rank
    return [Le(0, sz), Lt(sz, 2 * o.M), ('the face in hand', And(Eq(s, F.arc(sz)), Eq(ld(s), s), n.live(e), Eq(ld(e), s))), ('arcs wait in order', All(0, sz, lambda j: Eq(S.at(j), F.arc(j)), pat=lambda j: [[S.at(j)], [F.arc(j)]])),
        ('the faces before and this one up to the arc in hand are marked', arcq(n, lambda x: Iff(evis(n, x), Or(taken(o, F, sz + 1, ld(x)), And(Eq(ld(x), s), Le(1, rk(x)), Le(rk(x), rk(e))))))), ('counted', Eq(c.v('NumFaces'), F.cnt(sz + 1))), Le(0, c.v('NumFaces'), 2 * o.M - sz - 1)] + ekeep(o, n)
def f_roots(c):
    o, n = og(c), ng(c); F = Faces(o); v = c.v('v'); k = c.v('connectedComponents')
    return [Le(1, v, 1 + o.N), ('trees counted', Eq(k, F.trees(v))), Le(0, k, v - 1), ('one face of every tree with edges was taken off', Eq(c.v('NumFaces'), F.cnt(0) - F.big(v))), Le(1 - v, c.v('NumFaces'), 2 * o.M)] + ekeep(o, n)
def fi_post(o, n, a, r):
    o, n = o.g, n.g; F = Faces(o); N = o.N
    return [("OK exactly if Euler's formula holds: faces, less one per further tree with edges, are M - N + 1 + trees", Eq(r, Ite(Eq(F.cnt(0) - F.big(1 + N) + 1, o.M - N + 1 + F.trees(1 + N)), OK, NOTOK)))] + ekeep(o, n) + n.wf()
FIM = ['g:E.flags', 'g:theStack.size', 'g:theStack:S']
k = '_CheckEmbeddingFacialIntegrity'
FIL = [LoopAnn(f_push, lambda c: og(c).bound - c.v('e'), lemmas=f_push_lem), LoopAnn(f_face, lambda c: ng(c).stk.size, lemmas=f_face_lem), LoopAnn(f_walk, lambda c: (lambda F: F.len(c.v('eStart')) - F.rank(c.v('e')))(Faces(og(c)))), LoopAnn(f_roots, lambda c: og(c).N + 1 - c.v('v'))]
contract(k + '@listed', [('g', 'g')], alias=k, prop=P, modular=True, conc_ok=False, use=('gp_GetVertexDegree',), modifies=FIM, requires=fi_pre, assume=lambda v, a: [Faces(v.g).enum()] + Faces(v.g).defs(), loops={'%s@listed:%d' % (k, i): x for i, x in enumerate(FIL)}, ensures=fi_post, configs=('rel', 'dbg'))
# ---------------------------------------------------------------- outerplanarity: every vertex on an external face
class Walk:
    """the face that starts with the first arc of a vertex v: its members, numbered from that arc on"""
    def __init__(s, g):
        k = '.%d' % g.h.b.id; F = lambda nm: lambda *a: t.app('ext_' + nm + k, tuple(t.I(x) for x in a), 'Int')
        s.g = g; s.on_ = F('on'); s.rank = F('rank'); s.len = F('len'); s.mem = F('mem')
    def on(s, v, x): return t.ne(s.on_(v, x), 0)
    def orbit(s, v):
        g = s.g; e0 = g.first(v)
        return Implies(Ne(e0, NIL), And(All(2, g.bound, lambda x: Implies(And(g.live(x), s.on(v, x)), Le(0, s.rank(v, x)), Eq(s.mem(v, s.rank(v, x)), x), Lt(s.rank(v, x), s.len(v)), s.on(v, circ(g, x)), Ite(Eq(circ(g, x), e0), lambda: Eq(s.rank(v, x) + 1, s.len(v)), lambda: Eq(s.rank(v, circ(g, x)), s.rank(v, x) + 1))), pat=lambda x: [[g.live(x)], [s.on_(v, x)]])))
def facedef(g):
    W = Walk(g); return ('definition of the face of the first arc of a vertex: it begins there', V(g, lambda v: Implies(Ne(g.first(v), NIL), W.on(v, g.first(v)), Eq(W.rank(v, g.first(v)), 0), All(2, g.bound, lambda x: Implies(And(g.live(x), W.on(v, x)), Le(0, W.rank(v, x))), pat=lambda x: [W.on_(v, x)])), lambda v: [g.first(v)]))
ORB1 = 'orbit of an element under a permutation (finite; its members are numbered from that element on)'
wroot = gh('fin')
def on_arc(g, W, v, w, x, k=None): return And(g.live(x), W.on(v, x), Eq(g.own(x), w), True if k is None else Lt(W.rank(v, x), k))
def m_inv(c):
    o, n = og(c), ng(c); W = Walk(o); s = c.v('startVertex'); e = c.v('e'); k = W.rank(s, e)
    return [n.live(e), W.on(s, e), Eq(c.v('nextVertex'), o.own(e)), ('vertices passed are marked', arcq(n, lambda x: Implies(And(W.on(s, x), Lt(W.rank(s, x), k)), vis(n, o.own(x))))),
        ('only they were marked', V(o, lambda w: Implies(vis(n, w), Or(vis(o, w), on_arc(o, W, s, w, seen(n, w), k))), lambda w: [[n.vf(w)], [seen(n, w)]])), ('marks stay', V(o, lambda w: Implies(vis(o, w), vis(n, w), Eq(seen(n, w), seen(o, w))), lambda w: [n.vf(w)]))] + keeps(o, n)
def m_lem(c):
    o = og(c); return [(ORB1, Faces(o).perm(), Walk(o).orbit(c.v('startVertex')))]
def m_step(c):
    n = ng(c); h = c.X.views_of(c.head).g; u = c.v('nextVertex', c.head); e = c.v('e', c.head); upd(c, n, 'wla', lambda w, old: Ite(And(Eq(w, u), Not(vis(h, u))), e, old))
def m_ghost(o, n, a, r):
    e = Xor1(o.g.last(a.v)); A = n.g.m.st.mem[(n.g.h.b.id, ('$wla',))]; n.g.m.ghostset(n.g.h, 'wla', lambda w: Ite(And(Ne(o.g.first(a.v), NIL), Eq(w, o.g.own(e)), Not(vis(o.g, w))), e, A.read(w)))
def m_post(o, n, a, r):
    o, n = o.g, n.g; W = Walk(o); s = a.v; e0 = o.first(s)
    return [('the start is marked', vis(n, s)), ('every vertex of its face is marked', Implies(Ne(e0, NIL), arcq(o, lambda x: Implies(W.on(s, x), vis(n, o.own(x)))))),
        ('no other vertex was marked', V(o, lambda w: Implies(vis(n, w), Or(vis(o, w), Eq(w, s), on_arc(o, W, s, w, seen(n, w)))), lambda w: [[n.vf(w)], [seen(n, w)]])), ('marks stay', V(o, lambda w: Implies(vis(o, w), vis(n, w), Eq(seen(n, w), seen(o, w))), lambda w: [n.vf(w)]))] + keeps(o, n)
contract('_MarkExternalFaceVertices', [('g', 'g'), ('v', 'vert')], prop=P, modular=True, conc_ok=False, use=(), modifies=['g:V.flags', 'g.$wla'], requires=lambda v, a: gwf(v, a) + [real(v.g, 'the graph'), v.g.prim(a.v)], assume=lambda v, a: [facedef(v.g)], ghost=m_ghost,
    loops={'_MarkExternalFaceVertices:0': LoopAnn(m_inv, lambda c: (lambda W: W.len(c.v('startVertex')) - W.rank(c.v('startVertex'), c.v('e')))(Walk(og(c))), ghost_step=m_step, ghosts=('wla',), lemmas=m_lem)}, ensures=m_post, configs=('rel', 'dbg'))
def a_mark(c):
    o, n = og(c), ng(c); W = Walk(o); v = c.v('v')
    return [Le(1, v, 1 + o.N), ('trees passed: the root and its face are marked', All(1, v, lambda u: Implies(Eq(o.parent(u), NIL), vis(n, u), All(2, o.bound, lambda x: Implies(And(o.live(x), W.on(u, x), Ne(o.first(u), NIL)), vis(n, o.own(x))), pat=lambda x: [W.on_(u, x)])), pat=lambda u: [o.parent(u)])),
        ('nothing else is marked', V(o, lambda w: Implies(vis(n, w), Le(1, wroot(n, w)), Lt(wroot(n, w), v), Eq(o.parent(wroot(n, w)), NIL), Or(Eq(w, wroot(n, w)), on_arc(o, W, wroot(n, w), w, seen(n, w)))), lambda w: [[n.vf(w)], [wroot(n, w)]]))] + keeps(o, n)
def a_step(c):
    n = ng(c); h = c.X.views_of(c.head).g; v = c.v('v', c.head); upd(c, n, 'fin', lambda w, old: Ite(And(vis(n, w), Not(vis(h, w))), v, old))
def a_check(c):
    o, n = og(c), ng(c); v = c.v('v'); return [Le(1, v, 1 + o.N), ('vertices passed are marked', All(1, v, lambda w: vis(n, w), pat=lambda w: [[n.vf(w)], [wroot(n, w)]]))]
def outer_at(o, n, w): W = Walk(o); u = wroot(n, w); return And(Le(1, u), Le(u, o.N), Eq(o.parent(u), NIL), Or(Eq(w, u), on_arc(o, W, u, w, seen(n, w))))
def inner_at(o, w): W = Walk(o); return V(o, lambda u: Implies(Eq(o.parent(u), NIL), Ne(u, w), Implies(Ne(o.first(u), NIL), arcq(o, lambda x: Implies(W.on(u, x), Ne(o.own(x), w))))), lambda u: [o.parent(u)])
def someinner(o, n): return Not(V(o, lambda w: Not(inner_at(o, w)), lambda w: [[n.vf(w)], [o.vf(w)]]))
def a_post(o, n, a, r):
    o, n = o.g, n.g
    return [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK))), ('OK: every vertex is on the external face of a root', Implies(Eq(r, OK), V(o, lambda w: outer_at(o, n, w), lambda w: [[n.vf(w)], [wroot(n, w)]]))), ('NOTOK: some vertex is on no external face of a root', Implies(Eq(r, NOTOK), someinner(o, n)))] + keeps(o, n)
k = '_CheckAllVerticesOnExternalFace'
contract(k, [('g', 'g')], prop=P, modular=True, conc_ok=False, use=('_MarkExternalFaceVertices',), modifies=['g:V.flags', 'g.$wla', 'g.$fin'], requires=lambda v, a: gwf(v, a) + [real(v.g, 'the graph')],
    loops=dict(VL, **{k + ':0': LoopAnn(a_mark, lambda c: og(c).N + 1 - c.v('v'), ghost_step=a_step, ghosts=('wla', 'fin')), k + ':1': LoopAnn(a_check, lambda c: og(c).N + 1 - c.v('v'))}), ensures=a_post, configs=('rel', 'dbg'))

# ---------------------------------------------------------------- _CheckEmbeddingIntegrity: composition
def ci_pre(srt): return lambda v, a: v.s.wf() + v.g.wf() + [real(v.s, 'the embedding'), real(v.g, 'the original graph'), ('every edge of the embedding in use is listed', All(2, v.s.bound, lambda e: Iff(Ne(v.s.nbr(e), NIL), v.s.live(e)), pat=lambda e: [[v.s.nbr(e)], [v.s.live(e)]]))] + [flagset(x, SORTED) if srt else Eq(Bits(x.iflags, SORTED), Z(0)) for x in (v.s, v.g)]
def euler(s): F = Faces(s); return Eq(F.cnt(0) - F.big(1 + s.N) + 1, s.M - s.N + 1 + F.trees(1 + s.N))
def ci_post(o, n, a, r):
    s, g = o.s, o.g; ds, dg = degsum(s)(1 + s.N), degsum(g)(1 + g.N); out = Eq(s.eflags, 2)
    sub = lambda x, xn, y: arcq(x, lambda e: same_adj(x, e, y, wit(xn, e)))
    return [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK))), ('accepted: same order, same number of edges', Implies(Eq(r, OK), Eq(s.N, g.N), Eq(s.M, g.M), Eq(ds, 2 * s.M), Eq(dg, 2 * g.M))),
        ('accepted: every adjacency of the embedding is one of the original graph', Implies(Eq(r, OK), sub(s, n.s, g))), ('accepted: every adjacency of the original graph is one of the embedding', Implies(Eq(r, OK), sub(g, n.g, s))), ("accepted: Euler's formula holds", Implies(Eq(r, OK), euler(s))),
        ('accepted as outerplanar: every vertex is on an external face', Implies(And(Eq(r, OK), out), V(s, lambda w: outer_at(s, n.s, w), lambda w: [n.s.vf(w)]))),
        ('refused only for a reason', Implies(Eq(r, NOTOK), Or(Ne(s.N, g.N), Ne(s.M, g.M), Ne(ds, 2 * s.M), Ne(dg, 2 * g.M), unmatched(s, g), unmatched(g, s), Not(euler(s)), And(out, someinner(s, n.s)))))]
for srt in (0, 1):
    x = '@' + ('sorted' if srt else 'unsorted'); k = '_CheckEmbeddingIntegrity'
    contract(k + x, [('s', 'g'), ('g', 'g')], alias=k, prop=P, modular=True, conc_ok=False, use=('_TestSubgraph' + x, '_CheckEmbeddingFacialIntegrity@listed', '_CheckAllVerticesOnExternalFace'), requires=ci_pre(srt), ensures=ci_post, configs=('rel', 'dbg'),
        modifies=['s:V.flags', 'g:V.flags', 's:E.flags', 's:theStack.size', 's:theStack:S'] + ['%s.$%s' % (x, y) for x in 'sg' for y in ('ord', 'wla', 'wlp', 'fin')])
