"""The embedder and the homeomorph searches end to end (C22, C23) and the certificate checkers (C13, C14), on the real code, judged by the
oracles of oracle.py (bounded: generated graphs; the unbounded obligations of the functions below gp_Embed are in the other modules)."""
from itertools import combinations
from . import oracle as O
from .gview import *
from .gview import GV, liveview, newgraph, GP, OK, NOTOK, NIL, NONEMB, scenario, STRUCT
from cdv.conc import CP, Violation, Reject
from .gio import fresh, failing, nofail
SORTED = 0x2
PLANAR, OUTER, DRAW, K23, K4, K33 = 1, 2, 5, 18, 34, 65
ATTACH = {DRAW: 'gp_AttachDrawPlanar', K23: 'gp_AttachK23Search', K4: 'gp_AttachK4Search', K33: 'gp_AttachK33Search'}
NAME = {PLANAR: 'planarity', OUTER: 'outerplanarity', DRAW: 'drawing', K23: 'K2,3 search', K4: 'K4 search', K33: 'K3,3 search'}
# ---------------------------------------------------------------- graph families: (n, edge set)
def complete(n): return n, {(a, b) for a, b in combinations(range(1, n + 1), 2)}
def bip(a, b): return a + b, {(i, j) for i in range(1, a + 1) for j in range(a + 1, a + b + 1)}
BASE = [lambda: complete(5), lambda: bip(3, 3), lambda: complete(4), lambda: bip(2, 3)]
def subdivide(G, rng, p=.4, m=3):
    n, es = G; out = set()
    for a, b in sorted(es):
        k = rng.randint(1, m) if rng.random() < p else 0; c = [a] + [n + i + 1 for i in range(k)] + [b]; n += k
        out |= {(min(x, y), max(x, y)) for x, y in zip(c, c[1:])}
    return n, out
def triangulation(n, rng):
    """random maximal planar graph by repeated vertex insertion and edge flips"""
    if n < 3: return complete(n)
    F = [(1, 2, 3), (1, 3, 2)]
    for v in range(4, n + 1):
        i = rng.randrange(len(F)) if rng.random() < .7 else len(F) - 1; a, b, c = F.pop(i); F += [(a, b, v), (b, c, v), (c, a, v)]
    es = {(min(x, y), max(x, y)) for f in F for x, y in zip(f, f[1:] + f[:1])}
    for _ in range(rng.randint(0, 2 * n)):
        i, j = rng.randrange(len(F)), rng.randrange(len(F))
        if i == j: continue
        s = set(F[i]) & set(F[j])
        if len(s) != 2 or len(set(F[i]) | set(F[j])) != 4: continue
        f = F[i]; k = next(k for k in range(3) if f[k] in s and f[(k + 1) % 3] in s); a, b, c = f[k], f[(k + 1) % 3], f[(k + 2) % 3]
        d = next(iter(set(F[j]) - s)); 
        if (min(c, d), max(c, d)) in es: continue
        es.discard((min(a, b), max(a, b))); es.add((min(c, d), max(c, d))); F[i] = (a, d, c); F[j] = (d, b, c)
    return n, es
def outergraph(n, rng):
    """maximal outerplanar polygon"""
    es = {(i, i + 1) for i in range(1, n)} | ({(1, n)} if n > 2 else set()); st = [(1, n)]
    while st:
        a, b = st.pop()
        if b - a < 2: continue
        c = rng.randint(a + 1, b - 1) if rng.random() < .6 else rng.choice([a + 1, b - 1])
        es |= {(min(x, y), max(x, y)) for x, y in ((a, c), (c, b))}; st += [(a, c), (c, b)]
    return n, es
def drop(G, rng, k): n, es = G; l = sorted(es); rng.shuffle(l); return n, set(l[k:])
def addrand(G, rng, k):
    n, es = G; es = set(es)
    for _ in range(k):
        if n < 2: break
        a, b = rng.sample(range(1, n + 1), 2); es.add((min(a, b), max(a, b)))
    return n, es
def glue(G, H, rng, k):
    """identify k vertices (0: disjoint, 1: cut vertex, 2: separation pair along an edge or not)"""
    n, es = G; m, fs = H; k = min(k, n, m)
    if k == 2 and es and fs and rng.random() < .8: A = list(rng.choice(sorted(es))); B = list(rng.choice(sorted(fs)))
    else: A = rng.sample(range(1, n + 1), k); B = rng.sample(range(1, m + 1), k)
    mp = dict(zip(B, A)); c = n
    for v in range(1, m + 1):
        if v not in mp: c += 1; mp[v] = c
    out = set(es)
    if k == 2 and rng.random() < .4: out.discard((min(A), max(A))); fs = set(fs) - {(min(B), max(B))}
    out |= {(min(mp[a], mp[b]), max(mp[a], mp[b])) for a, b in fs}
    return c, out
def relabel(G, rng):
    n, es = G; p = list(range(1, n + 1)); rng.shuffle(p)
    return n, {(min(p[a - 1], p[b - 1]), max(p[a - 1], p[b - 1])) for a, b in es}
def piece(rng, size):
    r = rng.random()
    if r < .35: return subdivide(rng.choice(BASE)(), rng, rng.choice([0, .2, .5]), 2)
    if r < .5: return drop(triangulation(rng.randint(3, size), rng), rng, rng.choice([0, 0, 1, 2, size]))
    if r < .62: return drop(outergraph(rng.randint(3, size), rng), rng, rng.choice([0, 0, 1, 2, 3]))
    if r < .72: return rng.choice([complete(2), complete(3), bip(1, 3), complete(6), bip(3, 4), bip(2, 4), complete(1)])
    n = rng.randint(4, size); return addrand((n, set()), rng, rng.randint(n // 2, 2 * n))
def graph_(rng, size=9):
    G = piece(rng, size)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        G = glue(G, piece(rng, size), rng, rng.choice([0, 1, 1, 2, 2, 2, 3]))
        if G[0] > 34: break
    if rng.random() < .4: G = subdivide(G, rng, .2, 2)
    if rng.random() < .5: G = addrand(G, rng, rng.randint(1, 3))
    if rng.random() < .3: G = drop(G, rng, rng.randint(1, 2))
    G = relabel(G, rng); n, es = G
    if n > 48: raise Reject('large')
    cut = 3 * n + 2 if n > 2 else 3
    return G
def big(rng, flags):
    """large graph (only certificates are checked)"""
    n = rng.randint(60, 300); r = rng.random()
    if r < .3: G = triangulation(n, rng)
    elif r < .5: G = drop(triangulation(n, rng), rng, rng.randint(1, n))
    elif r < .7: G = drop(outergraph(n, rng), rng, rng.choice([0, 0, 1, 5]))
    elif r < .8: G = addrand((n, {(i, i + 1) for i in range(1, n)}), rng, rng.randint(0, n // 3))
    else:
        G = piece(rng, 9)
        while G[0] < n: G = glue(G, piece(rng, 9), rng, rng.choice([1, 2, 2]))
    if rng.random() < .4: G = addrand(G, rng, rng.randint(1, 2))
    return relabel(G, rng)
# ---------------------------------------------------------------- building
def build(g, rng, G, flags=()):
    n, es = G; p = fresh(g); l = sorted(es); rng.shuffle(l)
    if len(l) > 3 * n and g.call('gp_EnsureArcCapacity', p, 2 * (len(l) + 2)) != OK: raise Reject('capacity')
    when = rng.random() < .5
    def att():
        for f in flags:
            if f in ATTACH and g.call(ATTACH[f], p) != OK: raise Violation('attaching the %s extension fails' % NAME[f])
    early = rng.random() < .3
    if early: att()
    if g.call('gp_InitGraph', p, n) != OK: raise Violation('initialising fails')
    if not early and when: att()
    fill(g, rng, p, n, l, DRAW not in flags)
    if not early and not when: att()
    return p
def fill(g, rng, p, n, l, extra=True):
    S = set(l)
    junk = []
    for a, b in l:
        if rng.random() < .5: a, b = b, a
        if g.call('gp_AddEdge', p, a, rng.randint(0, 1), b, rng.randint(0, 1)) != OK: raise Violation('adding an edge fails')
        if extra and n > 3 and rng.random() < .05 and liveview(g, p).cap > 2 * (len(l) + len(junk) + 1):
            u, v = rng.sample(range(1, n + 1), 2)
            if (min(u, v), max(u, v)) not in S and not g.call('gp_IsNeighbor', p, u, v) and g.call('gp_AddEdge', p, u, 0, v, 1) == OK: junk.append((u, v))
    for u, v in junk:
        gv = liveview(g, p)
        e = next(e for e in gv.L.d[u] if gv.nbr(e) == v); g.call('gp_DeleteEdge', p, e, 0)
# ---------------------------------------------------------------- certificates
def adjacency(g, p):
    gv = liveview(g, p)
    for lab, ok in gv.adj() + gv.twins():
        if not ok: raise Violation('result graph: ' + lab)
    N = gv.N; rot = {v: list(gv.L.d[v]) for v in range(1, N + 1)}; nb = {e: int(gv.nbr(e)) for v in rot for e in rot[v]}
    for e in nb:
        if not 1 <= nb[e] <= N: raise Violation('result graph: an edge leads to the virtual or invalid vertex %d' % nb[e])
    for v in range(N + 1, 2 * N + 1):
        if gv.L.d[v]: raise Violation('result graph: virtual vertex %d still has edges' % v)
    return N, rot, nb
def edgeset(rot, nb):
    l = sorted((min(v, nb[e]), max(v, nb[e])) for v in rot for e in rot[v])
    if len(set(l)) * 2 != len(l): return None
    return set(l)
def euler(N, rot, nb):
    A = {v: {nb[e] for e in rot[v]} for v in rot}; nxt, faces = O.genus_ok(rot, None)
    comp = {}
    for i, c in enumerate(O.components(A)):
        for v in c: comp[v] = i
    f = {}; m = {}; n = {}
    for fc in faces: k = comp[nb[fc[0]]]; f[k] = f.get(k, 0) + 1
    for v in rot: n[comp[v]] = n.get(comp[v], 0) + 1; m[comp[v]] = m.get(comp[v], 0) + len(rot[v])
    ok = all(m[k] == 0 or n[k] - m[k] // 2 + f.get(k, 0) == 2 for k in n)
    # outer: each component has a face with all its vertices
    outer = all(m[k] == 0 or any(len({nb[e] for e in fc}) == n[k] for fc in faces if comp[nb[fc[0]]] == k) for k in n)
    return ok, outer
def certify(g, p, es, flags, r):
    """judge the result graph by the oracles"""
    if r == OK and flags in (K23, K4, K33) or r == NONEMB and flags == DRAW: return
    N, rot, nb = adjacency(g, p); F = edgeset(rot, nb)
    if F is None: raise Violation('result graph has a doubled edge')
    if flags in (PLANAR, OUTER, DRAW):
        if r == OK:
            if F != es: raise Violation('the embedding does not have the edges of the input: missing %s, extra %s' % (sorted(es - F), sorted(F - es)))
            ok, outer = euler(N, rot, nb)
            if not ok: raise Violation('the embedding is not planar')
            if flags == OUTER and not outer: raise Violation('the embedding is not outerplanar')
            return
        want = ("K5", "K33") if flags == PLANAR else ('K4', 'K23')
    else:
        want = {K23: ('K23',), K4: ('K4',), K33: ('K33',)}[flags]
    if not F <= es: raise Violation('the obstruction has edges the input has not: %s' % sorted(F - es))
    s = O.subdivision_of(O.norm(N, F))
    if s not in want: raise Violation('the result graph is no subdivision of %s (%s)' % (' or '.join(want), s or 'none of the obstructions'))
def expected(G, flags):
    A = O.norm(*G)
    return not {PLANAR: lambda: O.planar(A), DRAW: lambda: O.planar(A), OUTER: lambda: O.outerplanar(A), K23: lambda: not O.has_k23(A), K4: lambda: not O.has_k4(A), K33: lambda: not O.has_k33(A)}[flags]()
def embed(g, p, flags):
    import signal
    signal.alarm(60); r = g.call('gp_Embed', p, flags); signal.alarm(0); return r
def one(g, rng, p, G, flags, oracle, log):
    n, es = G; q = GP(g.call('gp_DupGraph', p))
    if q.addr == 0: raise Violation('duplicating fails')
    g.tofree.append(('graph', q.addr))
    r = embed(g, p, flags); spec.setmode('conc')
    if r not in (OK, NONEMB): raise Violation('%s: result %d' % (NAME[flags], r))
    own = 'before the check'
    if oracle and (r == NONEMB) != expected(G, flags): raise Violation('%s: reported %s' % (NAME[flags], 'embeddable / absent' if r == OK else 'not embeddable / found'))
    if rng.random() < .5: g.call('gp_SortVertices', p)
    s = g.call('gp_TestEmbedResultIntegrity', p, q, r)
    if s != r: raise Violation('%s: the integrity check returns %d for the result %d' % (NAME[flags], s, r))
    if liveview(g, p).iflags & SORTED: g.call('gp_SortVertices', p)
    certify(g, p, es, flags, r)
    gq = liveview(g, q)
    if {(min(v, w), max(v, w)) for v in range(1, n + 1) for w in [int(gq.nbr(e)) for e in gq.L.d[v]]} != es: raise Violation('the integrity check changes the original graph')
    return r
def history(g, rng, log, flagset, size=9, oracle=True):
    G = big(rng, flagset) if not oracle else graph_(rng, size); n, es = G
    flags = rng.choice(flagset)
    ext = [flags] + (rng.sample(list(ATTACH), rng.choice([1, 1, 2, 4])) if rng.random() < .2 else [])
    ext = [f for k, f in enumerate(ext) if f not in ext[:k]]; rng.shuffle(ext)
    log({'graph': {'n': n, 'edges': sorted(es)}, 'algorithm': NAME[flags], 'extensions': [NAME[f] for f in ext]})
    p = build(g, rng, G, ext)
    one(g, rng, p, G, flags, oracle, log)
    if rng.random() < .35:
        # the same structure again, for another graph of the same order
        H = graph_(rng, size) if oracle else drop(G, rng, 3)
        if rng.random() < .3: H = drop(G, rng, rng.randint(0, 3))
        H = (n, {(a, b) for a, b in H[1] if a <= n and b <= n})
        if 2 * len(H[1]) > liveview(g, p).cap: raise Reject('capacity')
        f2 = rng.choice([f for f in NAME if f not in ATTACH or f in ext])
        log({'graph': {'n': n, 'edges': sorted(es)}, 'algorithm': NAME[flags], 'extensions': [NAME[f] for f in ext], 'then': {'edges': sorted(H[1]), 'algorithm': NAME[f2]}})
        g.call('gp_ReinitializeGraph', p); l = sorted(H[1]); rng.shuffle(l); fill(g, rng, p, n, l, DRAW not in ext)
        one(g, rng, p, H, f2, oracle, log)
@scenario('embed', 'C22')
def embed_small(g, rng, log): history(g, rng, log, [PLANAR, OUTER], rng.choice([6, 9, 12]))
@scenario('embed_large', 'C22')
def embed_large(g, rng, log): history(g, rng, log, [PLANAR, OUTER], oracle=False)
@scenario('search', 'C23')
def search_small(g, rng, log): history(g, rng, log, [K23, K4, K33, K33], rng.choice([6, 9, 12]))
@scenario('search_large', 'C23')
def search_large(g, rng, log): history(g, rng, log, [K23, K4, K33], oracle=False)
