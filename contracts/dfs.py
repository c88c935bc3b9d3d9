"""graphDFSUtils.c and the embedder's own initial DFS: C05 (sorting), C06 (DFS labelling), C07 (least ancestor, lowpoint)"""
from .life import *
CHILD, FWD, PARENT, BACK, TMASK = 14, 10, 6, 2, 14
NUMBERED, SORTED = 1, 2
VIF = ('parent', 'leastAncestor', 'lowpoint', 'visitedInfo', 'pertinentEdge', 'pertinentRoots', 'futurePertinentChild', 'sortedDFSChildList', 'fwdArcList')
def etype(g, e): return g.ef(e) & TMASK
def used(g): return [e for e in range(2, g.bound) if g.nbr(e) != NIL]
# ---------------------------------------------------------------- C05
def sort_gen(g, rng):
    p = rgraph(g, rng, 'g', virtual=False, loops=rng.random() < .3, maxn=9); N = g.gN
    V = g.field(p, 'V'); VI = g.field(p, 'VI')
    perm = list(range(1, N + 1)); rng.shuffle(perm)
    for v in range(1, N + 1):
        g.poke(V + 16 * v + 8, 'int', perm[v - 1]); g.poke(VI + 36 * v, 'int', rng.randint(0, N))
        for k in range(1, 9):
            if rng.random() < .6: g.poke(VI + 36 * v + 4 * k, 'int', rng.randint(0, 9))
    g.setfield(p, ('internalFlags',), 1 | rng.choice([0, 2, 4, 6, 8])); g.trace.append('index=%s' % perm)
    if rng.random() < .4:
        for e in rng.sample(g.garcs, min(len(g.garcs), 2)):
            if e in live_arcs(g, p): g.call('gp_HideEdge', p, e); g.trace.append('hide %d' % e)
    return [p]
def permwf(g):
    N = g.N
    return [('stored indices form a permutation', sorted(g.index(v) for v in range(1, N + 1)) == list(range(1, N + 1))), ('parents are vertices', all(0 <= g.parent(v) <= N for v in range(1, N + 1))), ('numbered', g.iflags & NUMBERED),
        ('no edges to virtual vertices', all(g.nbr(e) <= N for e in used(g)))]
def sort_post(o, n, a, r):
    o, n = o.g, n.g; N = o.N; ix = {v: o.index(v) for v in range(1, N + 1)}; ix[0] = 0
    out = [('OK', r == OK), ('every edge joins the renamed endpoints', all(n.nbr(e) == ix[o.nbr(e)] for e in used(o)) and all(n.nbr(e) == o.nbr(e) for e in range(2, 2 + o.cap) if o.nbr(e) == NIL)),
        ('adjacency order kept', all(n.next(e) == o.next(e) and n.prev(e) == o.prev(e) for e in range(2, 2 + o.cap)) and all(n.first(ix[v]) == o.first(v) and n.last(ix[v]) == o.last(v) for v in range(1, N + 1))),
        ('attributes kept', all(n.ef(e) == o.ef(e) for e in range(2, 2 + o.cap)) and all((n.vf(ix[v]) | 1) == (o.vf(v) | 1) for v in range(1, N + 1))),
        ('vertex information moves along', all(n.vi(ix[v], k) == o.vi(v, k) for v in range(1, N + 1) for k in VIF if k != 'parent')),
        ('parents renamed', all(n.parent(ix[v]) == ix[o.parent(v)] for v in range(1, N + 1))), ('the index remembers the original label', all(n.index(ix[v]) == v for v in range(1, N + 1))),
        ('sorted flag inverted', n.iflags == o.iflags ^ SORTED), ('count and free slots kept', n.M == o.M and samestack(o.holes, n.holes))]
    return out + n.wf()
contract('_SortVertices', [('g', 'g')], prop='C05', bounded=True, modular=False, gen=sort_gen, modifies=['g.internalFlags', 'g:V', 'g:VI', 'g:E.neighbor'], requires=lambda v, a: gwf(v, a) + permwf(v.g), ensures=sort_post)
contract('gp_SortVertices', [('g', 'g')], prop='C05', bounded=True, modular=False, gen=sort_gen, modifies=['g.internalFlags', 'g:V', 'g:VI', 'g:E.neighbor'], requires=lambda v, a: gwf(v, a) + permwf(v.g), ensures=sort_post)
def gstate(gv):
    N = gv.N
    return ([(gv.nbr(e), gv.next(e), gv.prev(e), gv.ef(e)) for e in range(2, 2 + gv.cap)], [(gv.first(v), gv.last(v), gv.index(v), gv.vf(v) & ~1) for v in range(1, 2 * N + 1)], [tuple(gv.vi(v, k) for k in VIF) for v in range(1, N + 1)], gv.iflags, gv.M)
ATTACH = ('gp_AttachDrawPlanar', 'gp_AttachK23Search', 'gp_AttachK33Search', 'gp_AttachK4Search')
@scenario('sort_twice', 'C05')
def sort_twice(g, rng, log):
    p = sort_gen(g, rng)[0]
    if rng.random() < .3:
        k = rng.choice(ATTACH)
        if g.call(k, p) != OK: raise Violation(k + ' failed')
        g.trace.append(k)
    log({'trace': g.trace})
    s0 = gstate(liveview(g, p))
    for k in (1, 2):
        if g.call('gp_SortVertices', p) != OK: raise Violation('sorting failed')
    if gstate(liveview(g, p)) != s0: raise Violation('sorting twice does not restore the graph')
from cdv.conc import Violation
# ---------------------------------------------------------------- C06
def dfs_gen(g, rng, **k):
    p = rgraph(g, rng, 'g', virtual=False, maxn=rng.choice([5, 8, 14]), **dict(dict(simple=rng.random() < .7), **k))
    for e in range(2, 2 + g.field(p, 'arcCapacity')):
        a = g.field(p, 'E') + 16 * e + 12; g.poke(a, 'uint', g.peek(a, 'uint') & ~TMASK)
    return p
def anc(par, a, d):
    k = 0
    while d and k <= len(par):
        if a == d: return True
        d = par[d]; k += 1
    return False
def label_ok(o, n, idx, par, E):
    """E: list of (arc, tail, head); idx/par: labelling"""
    N = o.N; V = range(1, N + 1)
    tree = {}
    for e, u, w in E:
        if etype(n, e) == CHILD: tree[w] = tree.get(w, 0) + 1
    yield 'vertex numbers are a permutation', sorted(idx[v] for v in V) == list(V)
    yield 'every non-root was entered by exactly one tree edge', all(tree.get(v, 0) == (1 if par[v] else 0) for v in V)
    yield 'parents have smaller numbers', all(par[v] == 0 or idx[par[v]] < idx[v] for v in V)
    yield 'edges are labelled in pairs that agree with the numbering', all((etype(n, e), etype(n, e ^ 1)) in ((CHILD, PARENT), (PARENT, CHILD), (FWD, BACK), (BACK, FWD)) for e, u, w in E) and all(idx[u] < idx[w] if etype(n, e) in (CHILD, FWD) else idx[w] < idx[u] for e, u, w in E)
    yield 'tree edges join parent and child', all(par[w] == u for e, u, w in E if etype(n, e) == CHILD)
    yield 'every other edge joins a vertex to an ancestor', all(anc(par, u, w) for e, u, w in E if etype(n, e) == FWD)
    # numbering is a preorder: the number of a vertex follows the subtree numbers
    kids = {v: sorted((idx[c], c) for c in V if par[c] == v) for v in list(V) + [0]}
    cnt = [0]; ok = [True]
    order = []
    st = [c for i, c in reversed(kids[0])]
    while st:
        v = st.pop(); order.append(v); st += [c for i, c in reversed(kids[v])]
    yield 'the numbers are a preorder of the forest', [idx[v] for v in order] == list(V)
def arcs_of(gv): return [(e, gv.nbr(e ^ 1), gv.nbr(e)) for e in sorted(gv.L._i())]
def dfs_post(o, n, a, r):
    o, n = o.g, n.g; N = o.N; E = arcs_of(o)
    if o.iflags & NUMBERED: return [('already numbered: nothing to do', r == OK), ('already numbered: nothing changes', gstate(o) == gstate(n) and all(o.vf(v) == n.vf(v) for v in range(1, N + 1)))]
    idx = {v: n.index(v) for v in range(1, N + 1)}; par = {v: n.parent(v) for v in range(1, N + 1)}
    return [('OK', r == OK), ('numbered flag', n.iflags == o.iflags | NUMBERED), ('edges and adjacency order kept', all((n.nbr(e), n.next(e), n.prev(e)) == (o.nbr(e), o.next(e), o.prev(e)) for e in range(2, 2 + o.cap)) and all((n.first(v), n.last(v)) == (o.first(v), o.last(v)) for v in range(1, N + 1))),
        ('attributes kept', all((n.ef(e) | TMASK) == (o.ef(e) | TMASK) for e in range(2, 2 + o.cap)))] + [(l, x) for l, x in label_ok(o, n, idx, par, E)]
def c6gen(g, rng):
    p = dfs_gen(g, rng)
    if rng.random() < .1: g.call('gp_CreateDFSTree', p); g.trace.append('numbered already')
    elif rng.random() < .4:
        for e in rng.sample(g.garcs, min(len(g.garcs), rng.randint(1, 3))):
            if e in live_arcs(g, p): g.call('gp_HideEdge', p, e); g.trace.append('hide %d' % e)
    return [p]
noloop = lambda v, a: gwf(v, a) + [('no self-loops', all(u != w for e, u, w in arcs_of(v.g))), ('fresh labelling', all(v.g.parent(x) == 0 for x in range(1, v.g.N + 1)) and all(etype(v.g, e) == 0 for e in used(v.g)) or v.g.iflags & NUMBERED)]
contract('gp_CreateDFSTree', [('g', 'g')], prop='C06', bounded=True, modular=False, gen=c6gen, modifies=['g.internalFlags', 'g:V.index', 'g:V.flags', 'g:VI.parent', 'g:E.flags', 'g:theStack', 'g:theStack:S'], requires=noloop, ensures=dfs_post)
def lowdef(N, idx, par, E, n):
    """(least ancestor, lowpoint) of each vertex from the definition, by DFS number"""
    la = {v: idx[v] for v in range(1, N + 1)}
    for e, u, w in E:
        if etype(n, e) == BACK: la[u] = min(la[u], idx[w])
    lp = dict(la)
    for v in sorted(range(1, N + 1), key=lambda v: -idx[v]):
        if par[v]: lp[par[v]] = min(lp[par[v]], lp[v])
    return la, lp
def lplink(low):
    def post(o, n, a, r):
        o, n = o.g, n.g; N = o.N
        if o.iflags & SORTED: ren = {v: v for v in range(1, N + 1)}
        else: ren = {n.index(k): k for k in range(1, N + 1)}
        E = [(e, n.nbr(e ^ 1), n.nbr(e)) for e in sorted(n.L._i())]
        idx = {v: v for v in range(1, N + 1)}; par = {v: n.parent(v) for v in range(1, N + 1)}
        ok = label_ok(n, n, idx, par, E)
        la, lp = lowdef(N, idx, par, E, n)
        return [('OK', r == OK), ('numbered and sorted', n.iflags & 3 == 3), ('the renaming is one', sorted(ren) == list(range(1, N + 1))), ('edges kept under the renaming', all(n.nbr(e) == ren[o.nbr(e)] for e in used(o)) and all((n.next(e), n.prev(e)) == (o.next(e), o.prev(e)) for e in range(2, 2 + o.cap)) and all(n.first(ren[v]) == o.first(v) for v in range(1, N + 1)))] \
            + list(ok) + [('least ancestors', all(n.vi(v, 'leastAncestor') == la[v] for v in range(1, N + 1)))] + ([('lowpoints', all(n.vi(v, 'lowpoint') == lp[v] for v in range(1, N + 1)))] if low else [])
    return post
def c7gen(g, rng):
    p = dfs_gen(g, rng)
    z = rng.random()
    if z < .3: g.call('gp_CreateDFSTree', p)
    if z < .15: g.call('gp_SortVertices', p)
    if .3 < z < .5: g.call('gp_LowpointAndLeastAncestor', p)
    VI = g.field(p, 'VI')
    if rng.random() < .5:
        for v in range(1, g.gN + 1):
            for k in (1, 2): g.poke(VI + 36 * v + 4 * k, 'int', rng.randint(0, 9))
    g.trace.append('pre %.2f' % z)
    return [p]
M7 = ['g.internalFlags', 'g:V', 'g:VI.parent', 'g:VI.leastAncestor', 'g:VI.lowpoint', 'g:VI', 'g:E.flags', 'g:E.neighbor', 'g:theStack', 'g:theStack:S']
for nm, low in (('gp_LowpointAndLeastAncestor', True), ('gp_LeastAncestor', False)):
    contract(nm, [('g', 'g')], prop='C07', bounded=True, modular=False, gen=c7gen, modifies=M7, requires=noloop, ensures=lplink(low))
# ---------------------------------------------------------------- the embedder's initial DFS
def init_emb_post(o, n, a, r):
    o, n = o.g, n.g; N = o.N; V = range(1, N + 1)
    ren = {n.index(k): k for k in V}
    if sorted(ren) != list(V): return [('vertex numbers are a permutation', False)]
    par = {v: n.parent(v) for v in V}; idx = {v: v for v in V}
    E = [(e, ren[u], ren[w]) for e, u, w in arcs_of(o)]
    la, lp = lowdef(N, idx, par, E, n)
    out = [('OK', r == OK), ('numbered and sorted', n.iflags == o.iflags | 3)] + list(label_ok(o, n, idx, par, E))
    out += [('least ancestors', all(n.vi(v, 'leastAncestor') == la[v] for v in V)), ('lowpoints', all(n.vi(v, 'lowpoint') == lp[v] for v in V))]
    kids = {v: [c for c in V if par[c] == v] for v in V}
    def lst(lc, h):
        res = []; x = h
        while x and len(res) <= N:
            res.append(x); x = lc.next(x)
            if x == h: break
        return res
    out += [('sorted lists of DFS children', all(lst(n.sdl, n.vi(v, 'sortedDFSChildList')) == kids[v] for v in V))]
    fw = {v: sorted((w, e) for e, u, w in E if u == v and etype(n, e) == FWD) for v in V}
    def fl(v):
        h = n.vi(v, 'fwdArcList'); res = []; x = h
        while x and len(res) <= n.bound:
            res.append((n.nbr(x), x))
            if n.prev(n.next(x)) != x: return None
            x = n.next(x)
            if x == h: break
        return res
    fls = {v: fl(v) for v in V}
    out += [('forward arcs are held in ascending order of descendant', all(fls[v] is not None and sorted(fls[v]) == fw[v] and [x for x, _ in fls[v]] == sorted(x for x, _ in fls[v]) for v in V))]
    ok = True
    for v in V:
        ce = [e for e, u, w in E if w == v and etype(n, e) == CHILD]
        if not par[v]: ok = ok and n.first(v) == NIL and n.last(v) == NIL
        else:
            e = ce[0]; R = v + N; t_ = e ^ 1
            ok = ok and n.first(R) == e == n.last(R) and n.first(v) == t_ == n.last(v) and n.nbr(t_) == R and n.nbr(e) == v and all(n.next(x) == NIL == n.prev(x) for x in (e, t_)) and all(n.ext(R, k) == v and n.ext(v, k) == R for k in (0, 1))
    out += [('each tree edge is embedded as a singleton bicomp', ok), ('back edges keep their endpoints', all(n.nbr(e) == w for e, u, w in E if etype(n, e) in (FWD, BACK))),
        ('pertinence starts empty', all(n.vi(v, 'visitedInfo') == N and n.vi(v, 'pertinentRoots') == NIL and n.vi(v, 'pertinentEdge') == NIL and n.vi(v, 'futurePertinentChild') == (kids[v][0] if kids[v] else NIL) for v in V))]
    return out
contract('_EmbeddingInitialize', [('g', 'g')], prop=('C06', 'C07'), bounded=True, modular=False, gen=lambda g, rng: [dfs_gen(g, rng, simple=True)], modifies=['*'], requires=lambda v, a: noloop(v, a) + [('simple', len({(u, w) for e, u, w in arcs_of(v.g)}) == len(arcs_of(v.g))), ('not numbered', not v.g.iflags & 3)], ensures=init_emb_post)
