"""graphIsolator.c and the marking helpers of graphUtils.c (C21)"""
from .embprim import *
P = 'C21'
# ---------------------------------------------------------------- proved: flag clearing
def vfc(o, n, lo, hi): return All(lo, hi, lambda w: Eq(n.vf(w), BvClear(o.vf(w), 1)), pat=lambda w: [n.vf(w)])
def vfk(o, n, lo, hi): return All(lo, hi, lambda w: Eq(n.vf(w), o.vf(w)), pat=lambda w: [n.vf(w)])
def efc(o, n, lo, hi): return All(lo, hi, lambda e: Eq(n.ef(e), BvClear(o.ef(e), 1)), pat=lambda e: [n.ef(e)])
def efk(o, n, lo, hi): return All(lo, hi, lambda e: Eq(n.ef(e), o.ef(e)), pat=lambda e: [n.ef(e)])
def og(c): o = c.X.old; return o.g if hasattr(o, 'g') else o.d.g
def ng(c): n = c.X.views_of(c.st); return n.g if hasattr(n, 'g') else n.d.g
def vinv(k):
    def f(c):
        o, n = og(c), ng(c); v = c.v('v')
        return [Le(1, v, 1 + o.N) if k == 0 else Le(1 + o.N, v, 1 + 2 * o.N), vfc(o, n, 1, v), vfk(o, n, v, o.nv)]
    return f
VL = {'_ClearVertexVisitedFlags:0': (vinv(0), lambda c: 1 + og(c).N - c.v('v')), '_ClearVertexVisitedFlags:1': (vinv(1), lambda c: 1 + 2 * og(c).N - c.v('v')),
    '_ClearEdgeVisitedFlags:0': (lambda c: [Le(2, c.v('e'), og(c).bound), efc(og(c), ng(c), 2, c.v('e')), efk(og(c), ng(c), c.v('e'), 2 + og(c).cap)], lambda c: og(c).bound - c.v('e'))}
contract('_ClearVertexVisitedFlags', [('g', 'g'), ('virt', 'int')], prop=(P, 'C06'), modular=False, modifies=['g:V.flags'], requires=gwf, loops=VL, configs=('rel', 'dbg'),
    ensures=lambda o, n, a, r: [('vertices are unmarked, no other flag changes', vfc(o.g, n.g, 1, 1 + o.g.N)), ('virtual vertices only on request', Ite(Ne(a.virt, 0), lambda: vfc(o.g, n.g, 1 + o.g.N, o.g.nv), lambda: vfk(o.g, n.g, 1 + o.g.N, o.g.nv)))])
contract('_ClearEdgeVisitedFlags', [('g', 'g')], prop=P, modular=False, modifies=['g:E.flags'], requires=gwf, loops=VL, configs=('rel', 'dbg'),
    ensures=lambda o, n, a, r: [('edges in use are unmarked, no other flag changes', efc(o.g, n.g, 2, o.g.bound)), ('others keep their flags', efk(o.g, n.g, o.g.bound, 2 + o.g.cap))])
contract('_ClearVisitedFlags', [('g', 'g')], prop=P, modular=False, modifies=['g:E.flags', 'g:V.flags'], requires=gwf, loops=VL, use=(), configs=('rel', 'dbg'),
    ensures=lambda o, n, a, r: [('all vertices are unmarked', vfc(o.g, n.g, 1, o.g.nv)), ('edges in use are unmarked', efc(o.g, n.g, 2, o.g.bound)), ('others keep their flags', efk(o.g, n.g, o.g.bound, 2 + o.g.cap))])
# ---------------------------------------------------------------- bounded: marking and clean-up on partial embeddings
def Lcopy(gv): return lists_of(gv)
def flagsE(o): return {e: o.ef(e) for e in range(2, o.bound)}
def flagsV(o): return {v: o.vf(v) for v in range(1, 2 * o.N + 1)}
def bicomp(o, R):
    """vertices of the bicomp rooted at R, by child arcs"""
    st = [R]; out = []
    while st:
        v = st.pop(); out.append(v)
        for e in o.L.d[v]:
            if o.ef(e) & TMASK == CHILD: st.append(o.nbr(e))
    return out
def mark_some(g, rng, p, pr=.5):
    E = g.field(p, 'E'); V = g.field(p, 'V'); gv = liveview(g, p)
    for e in range(2, gv.bound, 2):
        if gv.nbr(e) and rng.random() < pr:
            for x in (e, e ^ 1): g.poke(E + 16 * x + 12, 'uint', gv.ef(x) | 1)
            g.trace.append('mark %d' % e)
    for v in range(1, 2 * gv.N + 1):
        if rng.random() < pr: g.poke(V + 16 * v + 12, 'uint', gv.vf(v) | 1)
def check_after(g, p, o, L, ef, vf, what, deleted=(), vi=None):
    n = liveview(g, p)
    for l, ok in n.wf():
        if not (ok() if callable(ok) else ok): raise Violation(what + ': ' + l)
    for v in range(1, 2 * o.N + 1):
        if n.L.d[v] != L[v]: raise Violation('%s: adjacency list of %d is %s, expected %s' % (what, v, n.L.d[v], L[v]))
        if n.vf(v) != vf[v]: raise Violation('%s: flags of vertex %d are %x, expected %x' % (what, v, n.vf(v), vf[v]))
    for e in range(2, o.bound):
        if e in deleted or e ^ 1 in deleted:
            if n.nbr(e) != NIL: raise Violation('%s: unmarked edge %d is still there' % (what, e))
        elif n.nbr(e) != o.nbr(e): raise Violation('%s: endpoint of arc %d' % (what, e))
        elif n.ef(e) != ef[e]: raise Violation('%s: flags of arc %d are %x, expected %x' % (what, e, n.ef(e), ef[e]))
    if n.M != o.M - len({e >> 1 for e in deleted}): raise Violation(what + ': edge count')
    for v in range(1, o.N + 1):
        for k in VIF:
            if n.vi(v, k) != (vi or {}).get((v, k), o.vi(v, k)): raise Violation('%s: %s of vertex %d' % (what, k, v))
def pstack(g, p, rng):
    sp = CP_stack(g, p); S = g.field(sp, 'S'); k = rng.choice([0, 0, 2, 3])
    for i in range(k): g.poke(S + 4 * i, 'int', rng.randint(1, 5))
    g.setfield(sp, ('size',), k)
@scenario('bicomp_helpers', P, configs=('rel', 'dbg'))
def bicomp_helpers(g, rng, log):
    p = orient_gen(g, rng); mark_some(g, rng, p); pstack(g, p, rng)
    o = snapv(g, p); N = o.N
    roots = [R for R in range(N + 1, 2 * N + 1) if o.deg(R)]
    if not roots: return
    R = rng.choice(roots); B = bicomp(o, R); L = Lcopy(o); ef = flagsE(o); vf = flagsV(o); vi = {}; deleted = set()
    fn = rng.choice(['_ClearVisitedFlagsInBicomp', '_ClearVisitedFlagsInOtherBicomps', '_FillVertexVisitedInfoInBicomp', '_GetBicompSize', '_DeleteUnmarkedEdgesInBicomp', '_ClearInvertedFlagsInBicomp', '_HideInternalEdges'])
    g.trace.append('%s root %d' % (fn, R)); log({'trace': g.trace})
    if fn == '_ClearVisitedFlagsInBicomp':
        r = g.call(fn, p, R)
        for v in B:
            vf[v] &= ~1
            for e in L[v]: ef[e] &= ~1
    elif fn == '_ClearVisitedFlagsInOtherBicomps':
        r = g.call(fn, p, R)
        for R2 in roots:
            if R2 != R:
                for v in bicomp(o, R2):
                    vf[v] &= ~1
                    for e in L[v]: ef[e] &= ~1
    elif fn == '_FillVertexVisitedInfoInBicomp':
        x = rng.randint(0, 99); r = g.call(fn, p, R, x)
        for v in B:
            if v <= N: vi[v, 'visitedInfo'] = x
    elif fn == '_GetBicompSize':
        r = g.call(fn, p, R)
        if r != len(B): raise Violation('_GetBicompSize: %d, expected %d' % (r, len(B)))
        r = OK
    elif fn == '_ClearInvertedFlagsInBicomp':
        r = g.call(fn, p, R)
        for v in B:
            for e in L[v]:
                if ef[e] & TMASK == CHILD: ef[e] &= ~16
    elif fn == '_DeleteUnmarkedEdgesInBicomp':
        r = g.call(fn, p, R)
        for v in B:
            for e in L[v]:
                if not ef[e] & 1: deleted |= {e, e ^ 1}
        L = {v: [e for e in l if e not in deleted] for v, l in L.items()}
    else:
        v = rng.randint(1, 2 * N); sp = CP_stack(g, p); k0 = g.field(sp, 'size')
        r = g.call(fn, p, v); inner = L[v][1:-1]
        st = liveview(g, p).stk
        got = [st.at(k0 + i) for i in range(st.size - k0)]
        if got != inner: raise Violation('_HideInternalEdges(%d): hidden %s, expected %s' % (v, got, inner))
        for e in inner: L = {w: [x for x in l if x not in (e, e ^ 1)] for w, l in L.items()}
        if r == OK and rng.random() < .7:
            check_after(g, p, o, L, ef, vf, fn)
            r = g.call('_RestoreInternalEdges', p, k0); L = Lcopy(o); fn = '_RestoreInternalEdges'
            if liveview(g, p).stk.size != k0: raise Violation(fn + ': stack level')
    if r != OK: raise Violation(fn + ' failed')
    check_after(g, p, o, L, ef, vf, fn, deleted, vi)
@scenario('delete_unmarked', P, configs=('rel', 'dbg'))
def delete_unmarked(g, rng, log):
    p = orient_gen(g, rng)
    if g.call('_OrientVerticesInEmbedding', p) != OK or g.call('_JoinBicomps', p) != OK: raise Violation('orient/join failed')
    mark_some(g, rng, p, rng.choice([0, .3, .6, 1])); o = snapv(g, p); N = o.N
    L = Lcopy(o); ef = flagsE(o); vf = flagsV(o)
    ring = {}
    for v in range(1, N + 1):
        h = o.vi(v, 'fwdArcList'); x = h
        while x:
            ring.setdefault(v, []).append(x); x = o.next(x)
            if x == h: break
    z = rng.random()
    if z < .4 and ring:
        v = rng.choice(list(ring)); x = rng.choice(ring[v]); w = o.nbr(x); mk = rng.random() < .5
        fn = '_AddAndMarkEdge' if mk else '_AddBackEdge'; g.trace.append('%s %d %d' % (fn, v, w)); log({'trace': g.trace})
        g.call(fn, p, v, w)
        L[v] = [x] + L[v]; L[w] = [x ^ 1] + L[w]
        if mk:
            for y in (v, w): vf[y] |= 1
            for y in (x, x ^ 1): ef[y] |= 1
        n = liveview(g, p); h = n.vi(v, 'fwdArcList'); got = []; y = h
        while y and len(got) < n.bound:
            got.append(y)
            if n.prev(n.next(y)) != y: raise Violation(fn + ': ring broken')
            y = n.next(y)
            if y == h: break
        rest = [y for y in ring[v] if y != x]
        if sorted(got) != sorted(rest) or len(got) > 1 and ring[v].index(got[0]) >= 0 and not any(got == rest[i:] + rest[:i] for i in range(len(rest))): raise Violation(fn + ': arcs still waiting are %s, expected %s' % (got, rest))
        check_after(g, p, o, L, ef, vf, fn, vi={(v, 'fwdArcList'): h})
        return
    fn = '_DeleteUnmarkedVerticesAndEdges'; log({'trace': g.trace + [fn]})
    if g.call(fn, p) != OK: raise Violation(fn + ' failed')
    for v, l in ring.items():
        for x in l: w = o.nbr(x); L[v] = [x] + L[v]; L[w] = [x ^ 1] + L[w]
    dead = {e for e in range(2, o.bound) if o.nbr(e) and not o.ef(e & ~1) & 1}
    n = liveview(g, p)
    for v in range(1, 2 * N + 1):
        want = [e for e in L[v] if e not in dead]
        if sorted(n.L.d[v]) != sorted(want): raise Violation('%s: edges at %d are %s, expected %s' % (fn, v, n.L.d[v], want))
        L[v] = n.L.d[v] if ring else want
    check_after(g, p, o, L, ef, vf, fn, dead, {(v, 'fwdArcList'): NIL for v in range(1, N + 1)})
def facestep(o, v, link):
    """next vertex along the external face and the link that leads back"""
    w = o.ext(v, 1 ^ link)
    if o.ext(w, 0) == o.ext(w, 1): return w, link
    return w, 0 if o.ext(w, 0) == v else 1
@scenario('mark_paths', P, configs=('rel', 'dbg'))
def mark_paths(g, rng, log):
    """marking along the tree, along the external face of a bicomp and along a path of degree 2 vertices"""
    z = rng.random()
    if z < .35:
        p = orient_gen(g, rng)
        if rng.random() < .5: g.call('_JoinBicomps', p)
        mark_some(g, rng, p, .2); o = snapv(g, p); N = o.N; vf = flagsV(o); ef = flagsE(o)
        d = rng.randint(1, N); d0 = d; up = [d]
        while o.parent(up[-1]): up.append(o.parent(up[-1]))
        a = rng.choice(up); start = d if rng.random() < .7 or d == a else d
        fn = 'gp_MarkDFSPath' if 'gp_MarkDFSPath' in g.prog.funcs else '_MarkDFSPath'
        g.trace.append('MarkDFSPath %d..%d' % (a, start)); log({'trace': g.trace})
        r = g.call(fn, p, a, start)
        vf[d] |= 1
        while d != a:
            R = d + N
            e = [e for e in o.L.d[d] if o.ef(e) & TMASK == PARENT][0]; ef[e] |= 1; ef[e ^ 1] |= 1
            w = o.nbr(e); vf[w] |= 1
            if w > N: w = o.parent(w - N); vf[w] |= 1
            d = w
        if r != OK: raise Violation('_MarkDFSPath failed')
        check_after(g, p, o, Lcopy(o), ef, vf, '_MarkDFSPath')
        return
    if z < .75:
        p, cyc = cycle_bicomp(g, rng); mark_some(g, rng, p, .2); o = snapv(g, p); vf = flagsV(o); ef = flagsE(o)
        s, t_ = rng.choice(cyc), rng.choice(cyc); g.trace.append('MarkPathAlongBicompExtFace %d %d' % (s, t_)); log({'trace': g.trace})
        if g.call('_MarkPathAlongBicompExtFace', p, s, t_) != OK: raise Violation('_MarkPathAlongBicompExtFace failed')
        v, l = s, 1; vf[s] |= 1
        while True:
            w, l = facestep(o, v, l); e = o.vlink(w, l); ef[e] |= 1; ef[e ^ 1] |= 1; vf[w] |= 1
            if o.nbr(e) != v: raise Violation('bad external face')
            v = w
            if v == t_: break
        check_after(g, p, o, Lcopy(o), ef, vf, '_MarkPathAlongBicompExtFace')
        return
    # path of degree-2 vertices u, v, ..., w, x in a graph with extra edges at u and x
    N = rng.randint(4, 9); p = newgraph(g, N, 6 * N); g.tofree.append(('graph', p.addr)); vs = list(range(1, N + 1)); rng.shuffle(vs); k = rng.randint(3, N)
    path = vs[:k]; ops = [(path[i], path[i + 1]) for i in range(k - 1)]
    for y in vs[k:]:
        for end in (path[0], path[-1]):
            if rng.random() < .5: ops.append((end, y))
    rng.shuffle(ops)
    for u, w in ops: g.call('gp_AddEdge', p, u, rng.randint(0, 1), w, rng.randint(0, 1))
    g.trace.append('edges %s path %s' % (ops, path)); mark_some(g, rng, p, .5); o = snapv(g, p); vf = flagsV(o); ef = flagsE(o)
    cl = rng.random() < .5; fn = '_ClearVisitedFlagsOnPath' if cl else '_SetVisitedFlagsOnPath'; log({'trace': g.trace + [fn]})
    if g.call(fn, p, path[0], path[1], path[-2], path[-1]) != OK: raise Violation(fn + ' failed')
    for y in path: vf[y] = vf[y] & ~1 if cl else vf[y] | 1
    for i in range(k - 1):
        for e in o.L.d[path[i]]:
            if o.nbr(e) == path[i + 1]:
                for y in (e, e ^ 1): ef[y] = ef[y] & ~1 if cl else ef[y] | 1
    check_after(g, p, o, Lcopy(o), ef, vf, fn)
def cycle_bicomp(g, rng):
    """a bicomp whose external face is a cycle: path of tree edges merged, closed by a back edge"""
    k = rng.randint(2, 7); N = k + rng.randint(0, 2); p = newgraph(g, N, 6 * N); g.tofree.append(('graph', p.addr))
    for i in range(1, k): g.call('gp_AddEdge', p, i, 0, i + 1, 0)
    if k > 2: g.call('gp_AddEdge', p, 1, 0, k, 0)
    g.trace.append('cycle %d of %d' % (k, N))
    if g.call('_EmbeddingInitialize', p) != OK: raise Violation('init')
    gv = liveview(g, p)
    # vertices by DFS number: root 1, chain down (the cycle is entered in one direction)
    chain = [1]
    while True:
        nx = [v for v in range(1, N + 1) if gv.parent(v) == chain[-1]]
        if not nx: break
        chain.append(nx[0])
    chain = chain[:k]; R = chain[1] + N
    if k > 2:
        sp = CP_stack(g, p); S = g.field(sp, 'S'); n = 0
        f = gv.vi(1, 'fwdArcList'); W = gv.nbr(f); g.call('_WalkUp', p, 1, f)
        side = rng.randint(0, 1); zl = 1 ^ side
        for Z, c in zip(chain[1:], chain[2:]):
            ro = rng.randint(0, 1)
            for y in (Z, zl, c + N, ro): g.poke(S + 4 * n, 'int', y); n += 1
            zl = 1 ^ ro
        g.setfield(sp, ('size',), n)
        g.call('_MergeBicomps', p, 1, R, W, zl); g.call('_EmbedBackEdgeToDescendant', p, side, R, W, zl)
    return p, [R] + chain[1:]
