"""graphDFSUtils.c: gp_LowpointAndLeastAncestor, gp_LeastAncestor under contract on numbered and sorted graphs (C07)"""
from .dfsp import *
from .dfsp import vis, et, spos, ancf, byidx, tarc, ALL3, og, ng, PIG, NUMBERED, SORTED, CHILD, BACK, FWD
from .graph import scan_var, scanpos
from cdv.exec import LoopAnn
def gh(nm): return lambda g, x: g.m.ghost(g.h, nm, t.I(x))
ordn, finn, wla, wlp = gh('ord'), gh('fin'), gh('wla'), gh('wlp')
la = lambda g, w: g.vi(w, 'leastAncestor'); lp = lambda g, w: g.vi(w, 'lowpoint')
def V(g, fn, pat): return All(1, 1 + g.N, fn, pat=pat)
def forest(g):
    """the state gp_CreateDFSTree and gp_SortVertices leave: labels are a preorder of the forest (anc: the ancestor relation)"""
    N = g.N; P = g.parent
    return [('parents are earlier vertices, entered by their tree arc', V(g, lambda w: Or(Eq(P(w), NIL), And(Le(1, P(w)), Lt(P(w), w), g.live(tarc(g, w)), Eq(g.nbr(tarc(g, w)), w), Eq(g.own(tarc(g, w)), P(w)), et(g, tarc(g, w), CHILD))), lambda w: [[P(w)], [tarc(g, w)]])),
        ('roots have no tree arc', V(g, lambda w: Implies(Eq(P(w), NIL), Eq(tarc(g, w), NIL)), lambda w: [[P(w)], [tarc(g, w)]])),
        ('arcs to children are tree arcs', All(2, g.bound, lambda e: Implies(And(g.live(e), et(g, e, CHILD)), Eq(tarc(g, g.nbr(e)), e), Eq(P(g.nbr(e)), g.own(e))), pat=lambda e: [g.live(e)])),
        ('edges join vertices', All(2, g.bound, lambda e: Implies(g.live(e), Le(1, g.nbr(e)), Le(g.nbr(e), N), Le(1, g.own(e)), Le(g.own(e), N)), pat=lambda e: [g.live(e)])),
        ('a vertex is its own ancestor', V(g, lambda d: ancf(g, d, d), lambda d: [P(d)])),
        ('ancestors are earlier', All2(1, 1 + N, 1, 1 + N, lambda a, d: Implies(ancf(g, a, d), Le(a, d)), pat=lambda a, d: [g.m.ghost(g.h, 'anc', a, d)])),
        ('the parent is an ancestor', V(g, lambda d: Implies(Ne(P(d), NIL), ancf(g, P(d), d)), lambda d: [P(d)])),
        ('other ancestors are ancestors of the parent', All2(1, 1 + N, 1, 1 + N, lambda a, d: Implies(And(ancf(g, a, d), Ne(a, d)), Ne(P(d), NIL), ancf(g, a, P(d))), pat=lambda a, d: [g.m.ghost(g.h, 'anc', a, d)])),
        ('descendants of descendants are descendants', ALL3(N, lambda a, b, c: Implies(And(ancf(g, a, b), ancf(g, b, c)), ancf(g, a, c)), lambda a, b, c: [g.m.ghost(g.h, 'anc', a, b), g.m.ghost(g.h, 'anc', b, c)])),
        ('vertices between a vertex and its descendant are its descendants', ALL3(N, lambda a, b, c: Implies(And(ancf(g, a, c), Le(a, b), Le(b, c)), ancf(g, a, b)), lambda a, b, c: [g.m.ghost(g.h, 'anc', a, c), g.m.ghost(g.h, 'anc', a, b)]))]
def flagset(g, f): return Ne(Bits(g.iflags, f), t.bvc(0))
def low_pre(v, a): return gwf(v, a) + [('numbered', flagset(v.g, NUMBERED)), ('sorted', flagset(v.g, SORTED))] + forest(v.g)
def oncall(n, x): return And(Le(0, spos(n, x)), Lt(spos(n, x), n.stk.size), Eq(n.stk.at(spos(n, x)), x))
def make(low):
    fin = (lambda n, w: t.ne(finn(n, w), 0)) if low else vis
    nm = 'gp_LowpointAndLeastAncestor' if low else 'gp_LeastAncestor'
    def count(o, n, v):
        return [('visits are numbered', V(o, lambda w: Implies(vis(n, w), Le(1, ordn(n, w)), Lt(ordn(n, w), v), Eq(byidx(n, ordn(n, w)), w)), lambda w: [[n.vf(w)], [ordn(n, w)]])),
            ('every number below v was given to a visited vertex', All(1, v, lambda k: And(Le(1, byidx(n, k)), Le(byidx(n, k), o.N), vis(n, byidx(n, k)), Eq(ordn(n, byidx(n, k)), k)), pat=lambda k: [byidx(n, k)]))]
    def values(o, n, done):
        return [('least ancestors are at most the vertex and the ends of its back edges', And(V(o, lambda w: Implies(done(w), Le(la(n, w), w)), lambda w: [la(n, w)]), All(2, o.bound, lambda e: Implies(And(n.live(e), done(n.own(e)), et(n, e, BACK)), Le(la(n, n.own(e)), n.nbr(e))), pat=lambda e: [n.live(e)]))),
            ('least ancestors are attained', V(o, lambda w: Implies(done(w), Or(Eq(la(n, w), w), And(n.live(wla(n, w)), Eq(n.own(wla(n, w)), w), et(n, wla(n, w), BACK), Eq(n.nbr(wla(n, w)), la(n, w))))), lambda w: [la(n, w)]))] + ([
            ('lowpoints are at most the least ancestor and the lowpoints of the children', And(V(o, lambda w: Implies(done(w), Le(lp(n, w), la(n, w))), lambda w: [lp(n, w)]), All(2, o.bound, lambda e: Implies(And(n.live(e), done(n.own(e)), et(n, e, CHILD)), Le(lp(n, n.own(e)), lp(n, n.nbr(e)))), pat=lambda e: [n.live(e)]))),
            ('lowpoints are attained', V(o, lambda w: Implies(done(w), Or(Eq(lp(n, w), la(n, w)), And(n.live(wlp(n, w)), Eq(n.own(wlp(n, w)), w), et(n, wlp(n, w), CHILD), Eq(lp(n, n.nbr(wlp(n, w))), lp(n, w))))), lambda w: [lp(n, w)]))] if low else [])
    def frame(o, n):
        return [('other attributes of vertices are kept', All(1, 1 + o.N, lambda w: Eq(BvClear(n.vf(w), 1), BvClear(o.vf(w), 1)), pat=lambda w: [n.vf(w)])), ('virtual vertices are untouched', All(1 + o.N, o.nv, lambda w: Eq(n.vf(w), o.vf(w)), pat=lambda w: [n.vf(w)]))]
    def outer(c):
        o, n = og(c), ng(c); v = c.v('v')
        return [Le(1, v, 1 + o.N), ('stack empty', Eq(n.stk.size, 0)), ('visited vertices are finished', V(o, lambda w: Iff(vis(n, w), fin(n, w)), lambda w: [[n.vf(w)], [la(n, w)]])), ('the vertices before a visited one are visited', V(o, lambda w: Implies(vis(n, w), Or(Eq(w, 1), vis(n, w - 1))), lambda w: [n.vf(w)])),
            ('children of visited vertices are visited', All(2, o.bound, lambda e: Implies(And(n.live(e), et(n, e, CHILD)), Iff(vis(n, n.own(e)), vis(n, n.nbr(e)))), pat=lambda e: [n.live(e)]))] + count(o, n, v) + values(o, n, lambda w: fin(n, w)) + frame(o, n)
    SEG = 'a set of labels that is closed downwards and has k members is the first k labels'
    def outer_lem(c):
        o, n = og(c), ng(c); v = c.v('v'); return [(SEG, And(*[x for _, x in count(o, n, v)], V(o, lambda w: Implies(vis(n, w), Or(Eq(w, 1), vis(n, w - 1))), lambda w: [n.vf(w)])), V(o, lambda w: Iff(vis(n, w), Lt(w, v)), lambda w: [[n.vf(w)], [la(n, w)]])),
            (PIG, count(o, n, v)[1][1], Le(v - 1, o.N))]
    def inner(c):
        o, n = og(c), ng(c); v, r = c.v('v'), c.v('v', c.entry); S = n.stk; sz = S.size; P = n.parent
        return [Le(1, r, o.N), Le(r, v, 1 + o.N), Le(0, sz, o.N),
            ('stack entries are distinct descendants of the root', All(0, sz, lambda j: And(Le(1, S.at(j)), Le(S.at(j), o.N), Eq(spos(n, S.at(j)), j), ancf(n, r, S.at(j)), Not(fin(n, S.at(j)))), pat=lambda j: [S.at(j)])),
            ('the count passes a visited root', Implies(vis(n, r), Lt(r, v))), ('the root waits or was visited', Or(vis(n, r), And(Eq(sz, 1), Eq(S.at(0), r)))),
            ('vertices visited since are descendants of the root', V(o, lambda w: Implies(vis(n, w), Or(Lt(w, r), ancf(n, r, w))), lambda w: [n.vf(w)])), ('vertices before the root are finished', All(1, r, lambda w: And(vis(n, w), fin(n, w)), pat=lambda w: [n.vf(w)]))] \
            + ([('visited vertices are finished or wait', V(o, lambda w: Iff(vis(n, w), Or(fin(n, w), And(vis(n, w), oncall(n, w)))), lambda w: [n.vf(w)]))] if low else []) + [
            ('children of visited vertices wait above them or are finished', All(2, o.bound, lambda e: Implies(And(n.live(e), et(n, e, CHILD), vis(n, n.own(e))), Or(And(vis(n, n.nbr(e)), fin(n, n.nbr(e))), And(oncall(n, n.nbr(e)), *([Lt(spos(n, n.own(e)), spos(n, n.nbr(e))), Not(fin(n, n.own(e)))] if low else [])))), pat=lambda e: [n.live(e)])),
            ('children of vertices not visited are neither visited nor waiting, but for the root', All(2, o.bound, lambda e: Implies(And(n.live(e), et(n, e, CHILD), Not(vis(n, n.own(e)))), And(Not(vis(n, n.nbr(e))), Not(oncall(n, n.nbr(e))))), pat=lambda e: [n.live(e)]))] + count(o, n, v) + values(o, n, lambda w: fin(n, w)) + frame(o, n)
    IND = 'induction along parents (which have smaller labels)'
    def inner_lem(c):
        o, n = og(c), ng(c); S = n.stk; sz = S.size; v, r = c.v('v'), c.v('v', c.entry); u = S.at(sz - 1); P = n.parent; Q = lambda d: Implies(ancf(n, r, d), vis(n, d))
        return [(PIG, count(o, n, v)[1][1], Implies(And(Lt(0, sz), Not(vis(n, u))), Lt(v - 1, o.N))),
            (IND, Implies(Eq(sz, 0), V(o, lambda d: And(Or(Eq(P(d), NIL), And(Le(1, P(d)), Lt(P(d), d))), Implies(Or(Eq(P(d), NIL), Q(P(d))), Q(d))), lambda d: [[P(d)], [n.vf(d)]])), Implies(Eq(sz, 0), V(o, Q, lambda d: [n.vf(d)])))]
    def inner_init(c):
        n = ng(c); v = c.v('v'); S0 = c.st.mem[(n.h.b.id, ('$spos',))]; n.m.ghostset(n.h, 'spos', lambda y: Ite(Eq(y, v), 0, lambda: S0.read(y)))
    def upd(n, c, nm, fn):
        A = c.head.mem[(n.h.b.id, ('$' + nm,))]; n.m.ghostset(n.h, nm, lambda y: fn(y, A.read(y)))
    def inner_step(c):
        n, h = ng(c), c.X.views_of(c.head).g; u = h.stk.at(h.stk.size - 1); new = Not(vis(h, u)); v = c.v('v', c.head)
        upd(n, c, 'byidx', lambda k, old: Ite(And(new, Eq(k, v)), u, old)); upd(n, c, 'ord', lambda w, old: Ite(And(new, Eq(w, u)), v, old))
        if low: upd(n, c, 'fin', lambda w, old: Ite(And(Not(new), Eq(w, u)), 1, old))
    def push(c):
        o, n = og(c), ng(c); en = c.X.views_of(c.entry).g; u, e = c.v('u'), c.v('e'); S = n.stk; sz = S.size; z0 = en.stk.size; p = scanpos(n, u, e)
        mine = lambda w: And(Ne(tarc(n, w), NIL), Eq(n.parent(w), u), Lt(n.pos(tarc(n, w)), p))
        return [('cursor', Or(Eq(e, NIL), And(n.live(e), Eq(n.own(e), u)))), Le(z0, sz), Le(sz, o.N), ('earlier entries stay', All(0, z0, lambda j: Eq(S.at(j), en.stk.at(j)), pat=lambda j: [S.at(j)])),
            ('new entries are the children passed', All(z0, sz, lambda j: And(Le(1, S.at(j)), Le(S.at(j), o.N), mine(S.at(j)), Eq(spos(n, S.at(j)), j)), pat=lambda j: [S.at(j)])),
            ('children passed are on the stack, the others are where they were', V(o, lambda w: Ite(mine(w), lambda: And(oncall(n, w), Le(z0, spos(n, w))), lambda: Eq(spos(n, w), spos(en, w))), lambda w: [[spos(n, w)], [tarc(n, w)]]))] + ([] if low else mins(c))
    def push_step(c):
        n, h = ng(c), c.X.views_of(c.head).g; sz = n.stk.size; grew = Ne(sz, h.stk.size); x = n.stk.at(sz - 1)
        upd(n, c, 'spos', lambda y, old: Ite(And(grew, Eq(y, x)), sz - 1, old))
        if not low: min_step(c)
    def push_lem(c):
        o, n = og(c), ng(c); S = n.stk; e = c.v('e'); x = n.nbr(e); g = And(Ne(e, NIL), et(n, e, CHILD))
        return [(PIG, Implies(g, And(Le(1, x), Le(x, o.N), All(0, S.size, lambda j: And(Le(1, S.at(j)), Le(S.at(j), o.N), Eq(spos(n, S.at(j)), j), Ne(S.at(j), x)), pat=lambda j: [S.at(j)]))), Implies(g, Lt(S.size, o.N)))]
    def mins(c):
        o, n = og(c), ng(c); en = c.X.views_of(c.entry).g; u, e = c.v('u'), c.v('e'); p = scanpos(n, u, e); A = c.v('leastAncestor')
        seen = lambda x, ty: And(n.live(x), Eq(n.own(x), u), Lt(n.pos(x), p), et(n, x, ty))
        r = [('least ancestor so far', And(Le(A, u), All(2, o.bound, lambda x: Implies(seen(x, BACK), Le(A, n.nbr(x))), pat=lambda x: [n.live(x)]))), ('least ancestor so far is attained', Or(Eq(A, u), And(seen(wla(n, u), BACK), Eq(n.nbr(wla(n, u)), A)))), ('other witnesses stay', V(o, lambda w: Implies(Ne(w, u), Eq(wla(n, w), wla(en, w))), lambda w: [wla(n, w)]))]
        if low:
            L = c.v('L')
            r += [('cursor', Or(Eq(e, NIL), And(n.live(e), Eq(n.own(e), u)))), ('lowpoint so far', And(Le(L, u), All(2, o.bound, lambda x: Implies(seen(x, CHILD), Le(L, lp(n, n.nbr(x)))), pat=lambda x: [n.live(x)]))), ('lowpoint so far is attained', Or(Eq(L, u), And(seen(wlp(n, u), CHILD), Eq(lp(n, n.nbr(wlp(n, u))), L)))), ('other lowpoint witnesses stay', V(o, lambda w: Implies(Ne(w, u), Eq(wlp(n, w), wlp(en, w))), lambda w: [wlp(n, w)]))]
        return r
    def min_step(c):
        n = ng(c); e, u = c.v('e', c.head), c.v('u')
        ch = Ne(c.v('leastAncestor'), c.v('leastAncestor', c.head)); upd(n, c, 'wla', lambda w, old: Ite(And(ch, Eq(w, u)), e, old))
        if low:
            cl = Ne(c.v('L'), c.v('L', c.head)); upd(n, c, 'wlp', lambda w, old: Ite(And(cl, Eq(w, u)), e, old))
    def post(o, n, a, r):
        o, n = o.g, n.g
        return [('OK', Eq(r, OK))] + values(o, n, lambda w: True) + frame(o, n)
    GH = ['spos', 'byidx', 'ord', 'wla'] + (['fin', 'wlp'] if low else [])
    def init(c):
        n = ng(c); n.m.ghostset(n.h, 'fin', lambda w: t.I(0))
    k = nm + '@sorted'
    lo = {k + ':0': LoopAnn(outer, lambda c: og(c).N + 1 - c.v('v'), ghost_init=init if low else None, ghosts=GH, lemmas=outer_lem),
        k + ':1': LoopAnn(inner, (lambda c: (2 * og(c).N + 2 - c.v('v'), ng(c).stk.size)), ghost_init=inner_init, ghost_step=inner_step, ghosts=GH, lemmas=inner_lem),
        k + ':2': LoopAnn(push, scan_var(lambda c: c.v('u')), ghost_step=push_step, ghosts=('spos',) if low else ('spos', 'wla'), lemmas=push_lem)}
    if low: lo[k + ':3'] = LoopAnn(mins, scan_var(lambda c: c.v('u')), ghost_step=min_step, ghosts=('wla', 'wlp'))
    contract(k, [('g', 'g')], alias=nm, prop='C07', modular=False, conc_ok=False, use=(), modifies=['g:V.flags', 'g:VI.leastAncestor', 'g:theStack.size', 'g:theStack:S'] + (['g:VI.lowpoint'] if low else []) + ['g.$' + x for x in GH], requires=low_pre, configs=('rel', 'dbg'), weight=5,
        loops=dict(VL, **lo), ensures=post)
make(True); make(False)
