"""graphDFSUtils.c: gp_CreateDFSTree under contract (C06): the labelling is a genuine depth first search"""
from .sortp import *
from .sortp import vinv, og, ng, vis, NUMBERED, SORTED, CHILD, FWD, PARENT, BACK, TMASK
from .graph import scan_var, scanpos
from cdv.exec import LoopAnn
Z = lambda x: t.bvc(x) if spec.MODE == 'sym' else x
def et(g, e, x): return Eq(Bits(g.ef(e), TMASK), Z(x))
def spos(g, x): return g.m.ghost(g.h, 'spos', t.I(x))
def ancf(g, a, d): return t.ne(g.m.ghost(g.h, 'anc', t.I(a), t.I(d)), 0)
def byidx(g, k): return g.m.ghost(g.h, 'byidx', t.I(k))
def tarc(g, w): return g.m.ghost(g.h, 'tarc', t.I(w))
def odd(j): return Eq(Mod(j, 2), 1)
def fresh_pre(v, a):
    g = v.g; N = g.N
    return gwf(v, a) + [('not numbered', Eq(Bits(g.iflags, NUMBERED), Z(0))), ('no vertex has a parent yet', All(1, 1 + N, lambda w: Eq(g.parent(w), NIL), pat=lambda w: [g.parent(w)])), ('no edges to virtual vertices', All(2, g.bound, lambda e: Le(0, g.nbr(e), N), pat=lambda e: [g.nbr(e)])),
        ('no self-loops', All(2, g.bound, lambda e: Implies(g.live(e), Ne(g.nbr(e), g.nbr(Xor1(e)))), pat=lambda e: [g.live(e)])), ('edges carry no type yet', All(2, g.bound, lambda e: Implies(g.live(e), et(g, e, 0)), pat=lambda e: [g.live(e)]))]
W1 = lambda n: lambda w: [n.vf(w)]
def numb(o, n, DFI):
    N = o.N
    return [('numbers given so far', Le(1, DFI, N + 1)), ('numbered vertices', All(1, 1 + N, lambda w: Implies(vis(n, w), Le(1, n.index(w)), Lt(n.index(w), DFI), Eq(byidx(n, n.index(w)), w)), pat=lambda w: [n.vf(w), n.index(w)])),
        ('every number below DFI was given once', All(1, DFI, lambda k: And(Le(1, byidx(n, k)), Le(byidx(n, k), N), vis(n, byidx(n, k)), Eq(n.index(byidx(n, k)), k)), pat=lambda k: [byidx(n, k)]))]
def pars(o, n, v, lim):
    N = o.N
    return [('parents are earlier vertices', All(1, 1 + N, lambda w: Implies(And(vis(n, w), Ne(n.parent(w), NIL)), Le(1, n.parent(w)), Le(n.parent(w), N), vis(n, n.parent(w)), Lt(n.index(n.parent(w)), n.index(w)), n.live(tarc(n, w)), Eq(n.nbr(tarc(n, w)), w), Eq(n.own(tarc(n, w)), n.parent(w)), et(n, tarc(n, w), CHILD)),
            pat=lambda w: [n.vf(w), n.parent(w), tarc(n, w)])),
        ('roots have no tree arc', All(1, 1 + N, lambda w: Implies(Or(Not(vis(n, w)), Eq(n.parent(w), NIL)), Eq(tarc(n, w), NIL), Eq(n.parent(w), NIL)), pat=lambda w: [n.vf(w), n.parent(w), tarc(n, w)])),
        ('roots come first', All(1, 1 + N, lambda w: Implies(And(vis(n, w), Eq(n.parent(w), NIL)), Lt(w, lim)), pat=lambda w: [n.vf(w), n.parent(w)])),
        ('vertices passed are done', All(1, v, lambda w: vis(n, w), pat=W1(n)))]
def ancs(o, n):
    N = o.N
    return [('a vertex is its own ancestor', All(1, 1 + N, lambda d: Iff(ancf(n, d, d), vis(n, d)), pat=lambda d: [n.vf(d)])),
        ('ancestors are earlier vertices', All2(1, 1 + N, 1, 1 + N, lambda a, d: Implies(ancf(n, a, d), vis(n, a), vis(n, d), Le(n.index(a), n.index(d))), pat=lambda a, d: [n.m.ghost(n.h, 'anc', a, d)])),
        ('the parent is an ancestor', All(1, 1 + N, lambda d: Implies(And(vis(n, d), Ne(n.parent(d), NIL)), ancf(n, n.parent(d), d)), pat=lambda d: [n.parent(d)])),
        ('other ancestors are ancestors of the parent', All2(1, 1 + N, 1, 1 + N, lambda a, d: Implies(And(ancf(n, a, d), Ne(a, d)), Ne(tarc(n, d), NIL), ancf(n, a, n.own(tarc(n, d)))), pat=lambda a, d: [[n.m.ghost(n.h, 'anc', a, d), tarc(n, d)]])),
        ('descendants of descendants are descendants', ALL3(N, lambda a, b, c: Implies(And(ancf(n, a, b), ancf(n, b, c)), ancf(n, a, c)), lambda a, b, c: [n.m.ghost(n.h, 'anc', a, b), n.m.ghost(n.h, 'anc', b, c)])),
        ('numbers between a vertex and its descendant belong to its descendants', ALL3(N, lambda a, b, c: Implies(And(ancf(n, a, c), vis(n, b), Le(n.index(a), n.index(b)), Le(n.index(b), n.index(c))), ancf(n, a, b)), lambda a, b, c: [n.m.ghost(n.h, 'anc', a, c), n.index(b)]))]
def ALL3(N, fn, pat):
    from cdv.spec import autopat
    q = [t.bvar(x) for x in 'abc']
    return t.forall(q, t.implies(t.and_(*[x for y in q for x in (t.le(1, y), t.le(y, N))]), t.B(fn(*q))), autopat(q, fn(*q), [pat(*q)]))
def lab(n, e): return [et(n, e, CHILD), et(n, e, FWD), et(n, e, PARENT), et(n, e, BACK)]
def labels(o, n):
    f = lambda e: Or(And(et(n, e, 0), et(n, Xor1(e), 0)), And(et(n, e, CHILD), et(n, Xor1(e), PARENT), Eq(tarc(n, n.nbr(e)), e)), And(et(n, e, PARENT), et(n, Xor1(e), CHILD), Eq(tarc(n, n.own(e)), Xor1(e))),
        And(et(n, e, FWD), et(n, Xor1(e), BACK), ancf(n, n.own(e), n.nbr(e))), And(et(n, e, BACK), et(n, Xor1(e), FWD), ancf(n, n.nbr(e), n.own(e))))
    return [('edges are unlabelled, or tree edges to a child, or lead to a descendant', All(2, o.bound, lambda e: Implies(n.live(e), f(e)), pat=lambda e: [n.live(e), n.ef(e)])), ('other attributes of edges are kept', All(0, 2 + o.cap, lambda e: And(Eq(BvClear(n.ef(e), TMASK), BvClear(o.ef(e), TMASK)), Implies(Not(n.live(e)), Eq(n.ef(e), o.ef(e)))), pat=lambda e: [n.ef(e)])),
        ('other attributes of vertices are kept', All(1, 1 + o.N, lambda w: Eq(BvClear(n.vf(w), 1), BvClear(o.vf(w), 1)), pat=lambda w: [n.vf(w)])), ('virtual vertices are untouched', All(1 + o.N, o.nv, lambda w: And(Eq(n.vf(w), o.vf(w)), Eq(n.index(w), o.index(w))), pat=lambda w: [n.vf(w), n.index(w)]))]
def onstack(n, x): return And(Le(1, spos(n, x)), Lt(spos(n, x), n.stk.size), odd(spos(n, x)), Eq(n.stk.at(spos(n, x)), x))
def entries(o, n, lo, hi, own=None):
    S = n.stk
    return All(lo, hi, lambda j: Implies(odd(j), n.live(S.at(j)), Eq(S.at(j - 1), n.own(S.at(j))), Eq(spos(n, S.at(j)), j)), pat=lambda j: [S.at(j)])
def stackinv(o, n):
    S = n.stk; sz = S.size; N = o.N; own = lambda j: n.own(S.at(j))
    return [('entries are arcs with their tails', entries(o, n, 0, sz)), ('they wait unlabelled; their tails are numbered', All(0, sz, lambda j: Implies(odd(j), et(n, S.at(j), 0), vis(n, own(j)), Implies(vis(n, n.nbr(S.at(j))), Lt(n.index(own(j)), n.index(n.nbr(S.at(j)))))), pat=lambda j: [S.at(j)])),
        ('later entries have later tails', All2(0, sz, 0, lambda j: sz, lambda i, j: Implies(And(odd(i), odd(j), Lt(i, j)), Le(n.index(own(i)), n.index(own(j)))), pat=lambda i, j: [[S.at(i), S.at(j)]])),
        ('every vertex numbered since is a descendant of the tail', All2(0, sz, 1, lambda j: 1 + N, lambda j, w: Implies(And(odd(j), vis(n, w), Le(n.index(own(j)), n.index(w))), ancf(n, own(j), w)), pat=lambda j, w: [[S.at(j), n.vf(w)]]))]
def cover(o, n, on):
    return [('arcs out of numbered vertices are labelled or wait on the stack', All(2, o.bound, lambda e: Implies(And(n.live(e), vis(n, n.own(e)), Or(Not(vis(n, n.nbr(e))), Lt(n.index(n.own(e)), n.index(n.nbr(e))))), Or(on(e), And(vis(n, n.nbr(e)), Or(et(n, e, CHILD), et(n, e, FWD))))), pat=lambda e: [n.live(e), n.ef(e)]))]
def d_outer(c):
    o, n = og(c), ng(c); v, DFI = c.v('v'), c.v('DFI')
    return [Le(1, v, 1 + o.N), ('stack empty', Eq(n.stk.size, 0))] + numb(o, n, DFI) + pars(o, n, v, v) + ancs(o, n) + labels(o, n) + cover(o, n, lambda e: False)
def d_while(c):
    o, n = og(c), ng(c); v, DFI = c.v('v'), c.v('DFI'); S = n.stk; sz = S.size
    start = And(Eq(sz, 2), Eq(S.at(1), NIL), Eq(S.at(0), NIL), Not(vis(n, v)))
    return [Le(1, v, o.N), Le(0, sz), Eq(Mod(sz, 2), 0), Le(sz, Max(2, 2 * o.bound - 4)), ('the root is numbered first', Or(start, vis(n, v)))] + numb(o, n, DFI) + pars(o, n, v, v + 1) + ancs(o, n) + labels(o, n) \
        + [(l, Or(start, x)) for l, x in stackinv(o, n)] + cover(o, n, lambda e: onstack(n, e))
def d_wstep(c):
    n, h = ng(c), c.X.views_of(c.head).g; u = c.v('u'); e = h.stk.at(h.stk.size - 1); up = h.stk.at(h.stk.size - 2); new = Not(vis(h, u)); D = c.v('DFI', c.head)
    m, b = n.m, n.h; A, T0, B0 = (c.head.mem[(b.b.id, ('$' + x,))] for x in ('anc', 'tarc', 'byidx')); anc0 = lambda a, d: A.read(a, d); ti0 = lambda w: T0.read(w); bi0 = lambda k: B0.read(k)
    m.ghostset(b, 'anc', lambda a, d: Ite(And(new, Eq(d, u)), Ite(Or(Eq(a, u), And(Ne(up, NIL), t.ne(anc0(a, up), 0))), 1, 0), lambda: anc0(a, d)))
    m.ghostset(b, 'tarc', lambda w: Ite(And(new, Eq(w, u)), e, lambda: ti0(w))); m.ghostset(b, 'byidx', lambda k: Ite(And(new, Eq(k, D)), u, lambda: bi0(k)))
def d_push(c):
    o, n = og(c), ng(c); en = c.X.views_of(c.entry).g; u, e = c.v('u'), c.v('e'); L = n.L; S = n.stk; sz = S.size; z0 = en.stk.size
    p = scanpos(n, u, e)
    return [('cursor', Or(Eq(e, NIL), And(n.live(e), Eq(n.own(e), u)))), Le(z0, sz), Eq(Mod(sz, 2), 0), Le(sz, 2 * o.bound - 4), ('earlier entries stay', All(0, z0, lambda j: Eq(S.at(j), en.stk.at(j)), pat=lambda j: [S.at(j)])),
        ('new entries are the arcs passed that lead on', All(z0, sz, lambda j: Implies(odd(j), n.live(S.at(j)), Eq(n.own(S.at(j)), u), Eq(S.at(j - 1), u), Lt(n.pos(S.at(j)), p), Not(vis(n, n.nbr(S.at(j)))), Eq(spos(n, S.at(j)), j)), pat=lambda j: [S.at(j)])),
        ('arcs passed that lead on are on the stack, the others are where they were', All(2, o.bound, lambda x: Implies(n.live(x), Ite(And(Eq(n.own(x), u), Lt(n.pos(x), p), Not(vis(n, n.nbr(x)))), lambda: onstack(n, x), lambda: Eq(spos(n, x), spos(en, x)))), pat=lambda x: [n.live(x), spos(n, x)]))]
def d_pstep(c):
    n, h = ng(c), c.X.views_of(c.head).g; sz = n.stk.size; grew = Ne(sz, h.stk.size); x = n.stk.at(sz - 1)
    S0 = c.head.mem[(n.h.b.id, ('$spos',))]; n.m.ghostset(n.h, 'spos', lambda y: Ite(And(grew, Eq(y, x)), sz - 1, lambda: S0.read(y)))
PIG = 'pigeonhole: distinct members of a finite range are no more than the range, and exhaust it when as many'
def d_olem(c):
    o, n = og(c), ng(c); v, DFI = c.v('v'), c.v('DFI'); N = o.N; nm = t.fresh('pig').args[0]; pig = lambda w: t.app(nm, (w,), 'Int')
    return [(PIG, All(1, DFI, lambda k: And(Le(1, byidx(n, k)), Le(byidx(n, k), N), Eq(n.index(byidx(n, k)), k)), pat=lambda k: [byidx(n, k)]), And(Le(DFI - 1, N), Implies(Eq(DFI, N + 1), All(1, 1 + N, lambda w: And(Le(1, pig(w)), Le(pig(w), N), Eq(byidx(n, pig(w)), w)), pat=lambda w: [n.vf(w), n.index(w), n.parent(w)])))),
        (PIG, All(1, v, lambda w: And(Le(1, n.index(w)), Lt(n.index(w), DFI), Eq(byidx(n, n.index(w)), w)), pat=lambda w: [n.index(w)]), Le(v, DFI))]
def d_wlem(c):
    """numbered vertices and one that is not numbered are at most N"""
    o, n = og(c), ng(c); DFI = c.v('DFI'); N = o.N; top = n.stk.at(n.stk.size - 1); u = Ite(Eq(n.stk.at(n.stk.size - 2), NIL), c.v('v'), lambda: n.nbr(top))
    return [(PIG, All(1, DFI, lambda k: And(Le(1, byidx(n, k)), Le(byidx(n, k), N), vis(n, byidx(n, k)), Eq(n.index(byidx(n, k)), k)), pat=lambda k: [byidx(n, k)]), Implies(And(Lt(0, n.stk.size), Le(1, u), Le(u, N), Not(vis(n, u))), Lt(DFI - 1, N)))]
def d_plem(c):
    o, n = og(c), ng(c); S = n.stk; e = c.v('e')
    return [(PIG, Implies(Ne(e, NIL), And(n.arc(e), All(0, S.size, lambda j: Implies(odd(j), n.arc(S.at(j)), Eq(spos(n, S.at(j)), j), Ne(S.at(j), e)), pat=lambda j: [S.at(j)]))), Implies(Ne(e, NIL), Le(S.size, 2 * (o.bound - 2) - 2)))]
def dfs_vf(g):
    return [('wf', True)]
def d_post(o, n, a, r):
    o, n = o.g, n.g; N = o.N
    f = lambda e: Ite(Lt(n.index(n.own(e)), n.index(n.nbr(e))), lambda: Or(And(et(n, e, CHILD), et(n, Xor1(e), PARENT), Eq(n.parent(n.nbr(e)), n.own(e)), Eq(tarc(n, n.nbr(e)), e)), And(et(n, e, FWD), et(n, Xor1(e), BACK), ancf(n, n.own(e), n.nbr(e)))), True)
    V = lambda fn, pat: All(1, 1 + N, fn, pat=pat)
    return [('OK', Eq(r, OK)), ('numbered flag', Eq(n.iflags, BvOr(o.iflags, NUMBERED))), ('every vertex has a number', V(lambda w: And(Le(1, n.index(w)), Le(n.index(w), N), Eq(byidx(n, n.index(w)), w)), lambda w: [n.index(w)])), ('every number belongs to one vertex', V(lambda k: And(Le(1, byidx(n, k)), Le(byidx(n, k), N), Eq(n.index(byidx(n, k)), k)), lambda k: [byidx(n, k)])),
        ('parents have smaller numbers and were entered by exactly one tree edge', V(lambda w: Implies(Ne(n.parent(w), NIL), Le(1, n.parent(w)), Le(n.parent(w), N), Lt(n.index(n.parent(w)), n.index(w)), n.live(tarc(n, w)), et(n, tarc(n, w), CHILD), Eq(n.nbr(tarc(n, w)), w), Eq(n.own(tarc(n, w)), n.parent(w))), lambda w: [n.parent(w)])),
        ('every edge is a tree edge to a child or leads to a descendant', All(2, o.bound, lambda e: Implies(n.live(e), f(e)), pat=lambda e: [n.live(e)])), ('labels agree with the numbering', All(2, o.bound, lambda e: Implies(n.live(e), Ne(n.index(n.own(e)), n.index(n.nbr(e)))), pat=lambda e: [n.live(e)]))] + ancs(o, n) + labels(o, n)[1:] + n.wf()
def d_var(c):
    o, n = og(c), ng(c); return (o.N + 1 - c.v('DFI'), n.stk.size)
GH = ('spos', 'anc', 'byidx', 'tarc')
def d_init(c):
    """nothing is numbered: the ghost relations start empty"""
    n = ng(c); m, h = n.m, n.h
    m.ghostset(h, 'anc', lambda a, d: t.I(0)); m.ghostset(h, 'tarc', lambda w: t.I(0)); m.ghostset(h, 'byidx', lambda k: t.I(0))
contract('gp_CreateDFSTree@fresh', [('g', 'g')], alias='gp_CreateDFSTree', prop='C06', modular=False, conc_ok=False, use=(), modifies=['g.internalFlags', 'g:V.index', 'g:V.flags', 'g:VI.parent', 'g:E.flags', 'g:theStack.size', 'g:theStack:S'] + ['g.$' + x for x in GH], requires=fresh_pre, configs=('rel', 'dbg'), weight=5,
    loops=dict(VL, **{'gp_CreateDFSTree@fresh:0': LoopAnn(d_outer, lambda c: og(c).N + 1 - c.v('v'), ghost_init=d_init, ghosts=GH, lemmas=d_olem), 'gp_CreateDFSTree@fresh:1': LoopAnn(d_while, d_var, ghost_step=d_wstep, ghosts=GH, lemmas=d_wlem),
        'gp_CreateDFSTree@fresh:2': LoopAnn(d_push, scan_var(lambda c: c.v('u')), ghost_step=d_pstep, ghosts=('spos',), lemmas=d_plem)}), ensures=d_post)
