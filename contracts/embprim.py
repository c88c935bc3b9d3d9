"""graphEmbed.c: the primitives that build an embedding (C20)"""
from .dfs import *
P = 'C20'
def rev_L(L, W):
    if spec.MODE == 'conc':
        d = dict(L.d); d[int(W)] = list(reversed(d.get(int(W), []))); return ConcLists(d)
    return SymLists(lambda w, k: Ite(Eq(w, W), lambda: L.at(W, L.deg(W) - 1 - k), lambda: L.at(w, k)), L.deg, lambda x: Ite(Eq(L.own(x), W), lambda: L.deg(W) - 1 - L.pos(x), lambda: L.pos(x)), L.own, L.live)
def cat_L(L, W, front, R):
    """R's list goes before (front) or after W's list; R is left empty"""
    if spec.MODE == 'conc':
        d = dict(L.d); a, b = d.get(int(W), []), d.get(int(R), []); d[int(W)] = b + a if front else a + b; d[int(R)] = []; return ConcLists(d)
    dW, dR = L.deg(W), L.deg(R)
    offW = Ite(front, dR, 0); offR = Ite(front, 0, dW)
    return SymLists(lambda w, k: Ite(Eq(w, W), lambda: Ite(And(Le(offR, k), Lt(k, offR + dR)), lambda: L.at(R, k - offR), lambda: L.at(W, k - offW)), lambda: L.at(w, k)),
        lambda w: Ite(Eq(w, W), dW + dR, lambda: Ite(Eq(w, R), 0, lambda: L.deg(w))),
        lambda x: Ite(Eq(L.own(x), W), lambda: L.pos(x) + offW, lambda: Ite(Eq(L.own(x), R), lambda: L.pos(x) + offR, lambda: L.pos(x))),
        lambda x: Ite(Eq(L.own(x), R), W, lambda: L.own(x)), L.live)
CV = lambda c: c.X.views_of(c.st).g
def done(o, W, e): return Ite(Eq(e, NIL), lambda: o.deg(W), lambda: o.pos(e))
def inW(o, W, x, e): return And(o.live(x), Eq(o.own(x), W), Lt(o.pos(x), done(o, W, e)))
def inv_inv(c):
    o, n = c.X.old.g, CV(c); W = c.X.args.W; e = c.v('e')
    return [Or(Eq(e, NIL), And(o.arc(e), o.live(e), Eq(o.own(e), W))),
        All(2, o.bound, lambda x: And(Eq(n.next(x), Ite(inW(o, W, x, e), o.prev(x), o.next(x)))), pat=lambda x: [n.next(x)]), All(2, o.bound, lambda x: And(Eq(n.prev(x), Ite(inW(o, W, x, e), o.next(x), o.prev(x)))), pat=lambda x: [n.prev(x)])]
contract('_InvertVertex', [('g', 'gloop'), ('W', 'vvert')], prop=P, modular=False, modifies=EL + GHM + ['g:extFace'], requires=lambda v, a: gwf(v, a) + [v.g.anyv(a.W)],
    loops={'_InvertVertex:0': (inv_inv, lambda c: c.X.old.g.deg(c.X.args.W) - done(c.X.old.g, c.X.args.W, c.v('e')))},
    ghost=lambda o, n, a, r: n.g.setL(rev_L(o.g.L, a.W)),
    ensures=lambda o, n, a, r: lists_equal(n.g.L, rev_L(o.g.L, a.W), n.g.bound, n.g.nv) + [('external face links of W swapped', And(Eq(n.g.ext(a.W, 0), o.g.ext(a.W, 1)), Eq(n.g.ext(a.W, 1), o.g.ext(a.W, 0)))),
        ('other external face links kept', All(1, n.g.nv, lambda w: Implies(Ne(w, a.W), Eq(n.g.ext(w, 0), o.g.ext(w, 0)), Eq(n.g.ext(w, 1), o.g.ext(w, 1))), pat=lambda w: [n.g.ext(w, 0)]))] + n.g.wf())
def mrg_inv(c):
    o, n = c.X.old.g, CV(c); R = c.X.args.R; W = c.X.args.W; e = c.v('e')
    return [Or(Eq(e, NIL), And(o.arc(e), o.live(e), Eq(o.own(e), R))), All(2, 2 + o.cap, lambda y: Eq(n.nbr(y), Ite(inW(o, R, Xor1(y), e), W, o.nbr(y))), pat=lambda y: [n.nbr(y)])]
def mrg_L(o, a): return cat_L(o.L, a.W, Eq(a.link, 0), a.R)
def mrg_post(o, n, a, r):
    o, n = o.g, n.g
    return lists_equal(n.L, mrg_L(o, a), n.bound, n.nv) + [('every transferred edge ends at W, the others are untouched', All(2, n.bound, lambda y: Eq(n.nbr(y), Ite(And(o.live(Xor1(y)), lambda: Eq(o.own(Xor1(y)), a.R)), a.W, lambda: o.nbr(y))), pat=lambda y: [n.nbr(y)])),
        ('the other vertex records are kept', All(1, n.nv, lambda w: Implies(Ne(w, a.R), Eq(n.index(w), o.index(w)), Eq(n.vf(w), o.vf(w))), pat=lambda w: [n.index(w)])), ('the merged copy is cleared', And(Eq(n.index(a.R), NIL), Eq(n.first(a.R), NIL), Eq(n.last(a.R), NIL)))] + n.wf()
def mrg_gen(g, rng):
    while True:
        p = rgraph(g, rng, 'g', loops=rng.random() < .3); gv = liveview(g, p); c = [v for v in range(1, 2 * g.gN + 1) if gv.deg(v)]
        if c and g.gN > 1:
            R = rng.choice(c); return [p, rng.choice([v for v in range(1, 2 * g.gN + 1) if v != R]), rng.randint(0, 1), R]
contract('_MergeVertex', [('g', 'gloop'), ('W', 'vvert'), ('link', 'bit'), ('R', 'vvert')], prop=P, modular=False, modifies=EL + GHM + ['g:E.neighbor', 'g:V.index', 'g:V.flags'], gen=mrg_gen,
    requires=lambda v, a: gwf(v, a) + [v.g.anyv(a.W), v.g.anyv(a.R), Ne(a.W, a.R), In(0, a.link, 2), ('the copy is in use', Lt(0, v.g.deg(a.R)))],
    loops={'_MergeVertex:0': (mrg_inv, lambda c: c.X.old.g.deg(c.X.args.R) - done(c.X.old.g, c.X.args.R, c.v('e')))},
    ghost=lambda o, n, a, r: n.g.setL(mrg_L(o.g, a)), ensures=mrg_post)
# ---- embedding one back edge ----
def emb_L(o, a):
    f = o.vi(a.W, 'pertinentEdge'); L1 = o.L.insert(a.R, ends(o.L, a.R, a.side), f)
    return L1.insert(a.W, ends(L1, a.W, a.link), Xor1(f))
def emb_req(v, a):
    g = v.g
    c = [In(0, a.side, 2), In(0, a.link, 2), And(Lt(g.N, a.R), Le(a.R, 2 * g.N)), And(Le(1, a.W), Le(a.W, g.N))]
    def ring():
        f = g.vi(a.W, 'pertinentEdge'); x, y = g.next(f), g.prev(f)
        return And(g.arc(f), lambda: And(Not(g.live(f)), Ne(g.nbr(f), NIL), Eq(g.nbr(f), a.W), g.arc(x), g.arc(y)), lambda: And(Not(g.live(x)), Not(g.live(y)), Iff(Eq(x, f), Eq(y, f)), Ne(x, Xor1(f)), Ne(y, Xor1(f)), Eq(g.prev(x), f), Eq(g.next(y), f)))
    return gwf(v, a) + c + [('both adjacency lists are non-empty', lambda: And(Lt(0, g.deg(a.R)), Lt(0, g.deg(a.W)))), ('the forward arc waits in a ring of unembedded arcs', ring), ('the root copy has a parent', lambda: And(Le(1, g.parent(a.R - g.N)), Le(g.parent(a.R - g.N), g.N)))]
def emb_post(o, n, a, r):
    o, n = o.g, n.g; f = o.vi(a.W, 'pertinentEdge'); b = Xor1(f); p = o.parent(a.R - o.N); h = o.vi(p, 'fwdArcList'); x, y = o.next(f), o.prev(f)
    return lists_equal(n.L, emb_L(o, a), n.bound, n.nv) + [('the back arc leads to the root copy, other endpoints kept', All(2, n.bound, lambda e: Eq(n.nbr(e), Ite(Eq(e, b), a.R, lambda: o.nbr(e))), pat=lambda e: [n.nbr(e)])),
        ('the ring closes over the embedded arc', Implies(Ne(x, f), lambda: And(Eq(n.next(y), x), Eq(n.prev(x), y)))),
        ('the arcs still waiting keep their links', All(2, n.bound, lambda e: Implies(And(Not(n.live(e)), Ne(e, x), Ne(e, y)), Eq(n.next(e), o.next(e)), Eq(n.prev(e), o.prev(e))), pat=lambda e: [n.next(e)])),
        ('the list head moves on if it was the embedded arc', Eq(n.vi(p, 'fwdArcList'), Ite(Ne(h, f), h, lambda: Ite(Eq(x, f), NIL, x)))), ('other list heads kept', All(1, 1 + n.N, lambda w: Implies(Ne(w, p), Eq(n.vi(w, 'fwdArcList'), o.vi(w, 'fwdArcList'))), pat=lambda w: [n.vi(w, 'fwdArcList')])),
        ('W and the root copy are neighbors on the external face', And(Eq(n.ext(a.R, a.side) if spec.MODE == 'conc' else Ite(Eq(a.side, 0), n.ext(a.R, 0), n.ext(a.R, 1)), a.W), Eq(n.ext(a.W, a.link) if spec.MODE == 'conc' else Ite(Eq(a.link, 0), n.ext(a.W, 0), n.ext(a.W, 1)), a.R))),
        ('other external face links kept', All(1, n.nv, lambda w: And(*[Implies(Not(Or(And(Eq(w, a.R), Eq(a.side, k)), And(Eq(w, a.W), Eq(a.link, k)))), Eq(n.ext(w, k), o.ext(w, k))) for k in (0, 1)]), pat=lambda w: [n.ext(w, 0)]))] + n.wf()
def emb_gen(g, rng, steps=None):
    """a partial embedding: initial state plus a random number of primitive steps; g.pairs = edges that could be embedded next"""
    while True:
        p = dfs_gen(g, rng, simple=True, flags=False)
        if g.call('_EmbeddingInitialize', p) != OK: raise Violation('initialisation failed')
        N = g.gN; VI = g.field(p, 'VI')
        for k in range(rng.randint(0, 6) if steps is None else steps):
            c = emb_cand(g, p)
            if not c: break
            z = rng.random()
            if z < .6:
                v, f, W, Rs = rng.choice(c); g.poke(VI + 36 * W + 16, 'int', f)
                R = rng.choice(Rs); s, l = rng.randint(0, 1), rng.randint(0, 1)
                g.call('_EmbedBackEdgeToDescendant', p, s, R, W, l); g.trace.append('embed R%d.%d-%d.%d' % (R, s, W, l))
            elif z < .8:
                gv = liveview(g, p); Rs = [R for R in range(N + 1, 2 * N + 1) if gv.deg(R)]
                if Rs:
                    R = rng.choice(Rs); Z = gv.parent(R - N); l = rng.randint(0, 1)
                    g.call('_MergeVertex', p, Z, l, R); g.trace.append('merge %d.%d R%d' % (Z, l, R))
            else:
                w = rng.randint(1, 2 * N); g.call('_InvertVertex', p, w); g.trace.append('invert %d' % w)
        c = emb_cand(g, p)
        g.garcs = live_arcs(g, p)
        return p, c
def emb_cand(g, p):
    gv = liveview(g, p); N = g.gN; out = []
    for v in range(1, N + 1):
        h = gv.vi(v, 'fwdArcList'); x = h
        while x:
            W = gv.nbr(x); Rs = [R for R in range(N + 1, 2 * N + 1) if gv.parent(R - N) == v and gv.deg(R)]
            if Rs and gv.deg(W): out.append((v, int(x), int(W), Rs))
            x = gv.next(x)
            if x == h: break
    return out
def embx_gen(g, rng):
    while True:
        p, c = emb_gen(g, rng)
        if c:
            v, f, W, Rs = rng.choice(c); g.poke(g.field(p, 'VI') + 36 * W + 16, 'int', f)
            return [p, rng.randint(0, 1), rng.choice(Rs), W, rng.randint(0, 1)]
contract('_EmbedBackEdgeToDescendant', [('g', 'g'), ('side', 'bit'), ('R', 'vvert'), ('W', 'vert'), ('link', 'bit')], prop=P, modular=False, modifies=EL + GHM + ['g:E.neighbor', 'g:VI.fwdArcList', 'g:extFace'], gen=embx_gen, requires=emb_req,
    ghost=lambda o, n, a, r: n.g.setL(emb_L(o.g, a)), ensures=emb_post)
# ---- bounded: the operations composed of these primitives ----
def lists_of(gv): return {v: list(l) for v, l in gv.L.d.items()}
def orient_gen(g, rng, joins=False):
    p, c = emb_gen(g, rng, rng.choice([None, None, 8, 12])); E = g.field(p, 'E')
    for e in live_arcs(g, p):
        a = E + 16 * e + 12; f = g.peek(a, 'uint')
        if f & TMASK == CHILD and rng.random() < .4: g.poke(a, 'uint', f | 16); g.trace.append('inverted %d' % e)
    return p
def orient_ref(gv, L, flags, ext, root, preserve):
    """reference: invert every vertex reached through an odd number of inverted tree edges"""
    st = [(root, 0)]
    while st:
        w, inv = st.pop()
        if inv: L[w].reverse(); ext[w] = (ext[w][1], ext[w][0])
        for e in L[w]:
            if flags[e] & TMASK == CHILD:
                st.append((gv.nbr(e), inv ^ (flags[e] & 16)))
                if not preserve: flags[e] &= ~16
def chk_lists(g, p, gv0, L, flags, ext, nb=None, what=''):
    n = liveview(g, p)
    for l, ok in n.wf():
        if not (ok() if callable(ok) else ok): raise Violation(what + ': ' + l)
    for v in range(1, 2 * n.N + 1):
        if n.L.d[v] != L[v]: raise Violation('%s: adjacency list of %d is %s, expected %s' % (what, v, n.L.d[v], L[v]))
        if ext is not None and (n.ext(v, 0), n.ext(v, 1)) != ext[v]: raise Violation('%s: external face links of %d' % (what, v))
    for e in range(2, n.bound):
        if n.ef(e) != flags[e]: raise Violation('%s: flags of arc %d' % (what, e))
        if n.nbr(e) != (gv0.nbr(e) if nb is None else nb[e]): raise Violation('%s: endpoint of arc %d' % (what, e))
def snapv(g, p):
    from cdv.conc import CMem, snapshot
    b, t_ = snapshot(g, [('g', p)]); return GV(CMem(g, b), p)
@scenario('orient_and_join', P, configs=('rel', 'dbg'))
def orient_and_join(g, rng, log):
    p = orient_gen(g, rng); log({'trace': g.trace})
    o = snapv(g, p); N = o.N
    L = lists_of(o); flags = {e: o.ef(e) for e in range(2, o.bound)}; ext = {v: (o.ext(v, 0), o.ext(v, 1)) for v in range(1, 2 * N + 1)}
    roots = [R for R in range(N + 1, 2 * N + 1) if L[R]]
    z = rng.random()
    if roots and z < .4:
        R = rng.choice(roots); pres = rng.randint(0, 1); g.trace.append('orient bicomp %d %d' % (R, pres)); log({'trace': g.trace})
        k = o.stk.size
        if g.call('_OrientVerticesInBicomp', p, R, pres) != OK: raise Violation('_OrientVerticesInBicomp failed')
        orient_ref(o, L, flags, ext, R, pres); chk_lists(g, p, o, L, flags, ext, what='_OrientVerticesInBicomp')
        return
    if z < .8:
        if g.call('_OrientVerticesInEmbedding', p) != OK: raise Violation('_OrientVerticesInEmbedding failed')
        for R in roots: orient_ref(o, L, flags, ext, R, 0)
        chk_lists(g, p, o, L, flags, ext, what='_OrientVerticesInEmbedding'); o = snapv(g, p)
    g.trace.append('join'); log({'trace': g.trace})
    if g.call('_JoinBicomps', p) != OK: raise Violation('_JoinBicomps failed')
    nb = {e: o.nbr(e) for e in range(2, o.bound)}
    for R in roots:
        W = o.parent(R - N)
        for e in L[R]: nb[e ^ 1] = W
        L[W] = L[R] + L[W]; L[R] = []
    chk_lists(g, p, o, L, flags, None, nb, '_JoinBicomps')
@scenario('merge_bicomps', P, configs=('rel', 'dbg'))
def merge_bicomps(g, rng, log):
    """what Walkup and Walkdown do for one back edge: mark, then merge the chain of bicomps from the root down to W"""
    p, c = emb_gen(g, rng, 0)
    if not c: return
    v, f, W, Rs = rng.choice(c); N = g.gN
    g.trace.append('walkup v=%d e=%d W=%d' % (v, f, W)); log({'trace': g.trace})
    o0 = snapv(g, p)
    g.call('_WalkUp', p, v, f)
    o = snapv(g, p); chk_lists(g, p, o0, lists_of(o0), {e: o0.ef(e) for e in range(2, o0.bound)}, {x: (o0.ext(x, 0), o0.ext(x, 1)) for x in range(1, 2 * N + 1)}, what='_WalkUp')
    chain = []; x = W
    while x != v: chain.append((o.parent(x), x + N)); x = o.parent(x)
    want = {}
    for Z, R in chain:
        if Z != v or True: want.setdefault(Z, []).append(R)
    for x in range(1, N + 1):
        h = o.vi(x, 'pertinentRoots'); l = []; y = h
        while y and len(l) <= N:
            l.append(y + N); y = o.brl.next(y)
            if y == h: break
        if sorted(l) != sorted(want.get(x, [])): raise Violation('_WalkUp: pertinent roots of %d are %s, expected %s' % (x, l, want.get(x)))
    if o.vi(W, 'pertinentEdge') != f: raise Violation('_WalkUp: pertinent edge not recorded')
    steps = [(Z, rng.randint(0, 1), R, rng.randint(0, 1)) for Z, R in reversed(chain) if Z != v]
    # optionally give some of the bicomps to be merged a second edge is not possible here; flips of singletons are
    sp = CP_stack(g, p); S = g.field(sp, 'S'); k = 0
    for Z, zl, R, ro in steps:
        for y in (Z, zl, R, ro): g.poke(S + 4 * k, 'int', y); k += 1
    g.setfield(sp, ('size',), k)
    g.trace.append('merge %s' % steps); log({'trace': g.trace})
    L = lists_of(o); flags = {e: o.ef(e) for e in range(2, o.bound)}; nb = {e: o.nbr(e) for e in range(2, o.bound)}; ext = {x: [o.ext(x, 0), o.ext(x, 1)] for x in range(1, 2 * N + 1)}
    fpc = {x: o.vi(x, 'futurePertinentChild') for x in range(1, N + 1)}
    kids = {x: [y for y in range(1, N + 1) if o.parent(y) == x] for x in range(1, N + 1)}
    if g.call('_MergeBicomps', p, v, Rs[0], W, rng.randint(0, 1)) != OK: raise Violation('_MergeBicomps failed')
    for Z, zl, R, ro in reversed(steps):
        x = ext[R][1 ^ ro]; ext[Z][zl] = x
        if ext[x][0] == ext[x][1]: ext[x][ro] = Z
        else: ext[x][0 if ext[x][0] == R else 1] = Z
        if zl == ro:
            L[R].reverse()
            e = [e for e in L[R] if flags[e] & TMASK == CHILD][0]; flags[e] ^= 16
        if fpc[Z] == R - N:
            l = kids[Z]; i = l.index(R - N); fpc[Z] = l[i + 1] if i + 1 < len(l) else 0
        for e in L[R]: nb[e ^ 1] = Z
        L[Z] = L[R] + L[Z] if zl == 0 else L[Z] + L[R]; L[R] = []
        want[Z].remove(R)
    chk_lists(g, p, o, L, flags, None, nb, '_MergeBicomps')
    n = liveview(g, p)
    for x in range(1, N + 1):
        if [n.ext(x, 0), n.ext(x, 1)] != ext[x]: raise Violation('_MergeBicomps: external face links of %d' % x)
        if n.vi(x, 'futurePertinentChild') != fpc[x]: raise Violation('_MergeBicomps: future pertinent child of %d' % x)
        if (n.vi(x, 'pertinentRoots') != NIL) != bool(want.get(x)): raise Violation('_MergeBicomps: pertinent roots of %d' % x)
    if n.stk.size: raise Violation('_MergeBicomps: stack not emptied')
