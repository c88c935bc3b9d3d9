"""Independent graph oracles in plain Python (no library code): planarity, outerplanarity, homeomorph presence, certificates.
Graphs are {vertex: set(neighbors)} with hashable vertices."""
from itertools import combinations
def norm(n, es):
    A = {v: set() for v in range(1, n + 1)}
    for a, b in es: A[a].add(b); A[b].add(a)
    return A
def edges(A): return {(a, b) for a in A for b in A[a] if a < b}
def components(A, without=()):
    seen = set(without); out = []
    for s in A:
        if s in seen: continue
        c = {s}; seen.add(s); st = [s]
        while st:
            x = st.pop()
            for y in A[x]:
                if y not in seen: seen.add(y); c.add(y); st.append(y)
        out.append(c)
    return out
def sub(A, vs): return {v: A[v] & vs for v in vs}
def blocks(A):
    """vertex sets of biconnected components (with an edge)"""
    idx = {}; low = {}; out = []; es = []
    for r in A:
        if r in idx: continue
        idx[r] = low[r] = len(idx); st = [(r, None, iter(sorted(A[r])))]
        while st:
            v, p, it = st[-1]
            for w in it:
                if w not in idx:
                    es.append((v, w)); idx[w] = low[w] = len(idx); st.append((w, v, iter(sorted(A[w])))); break
                if w != p and idx[w] < idx[v]: es.append((v, w)); low[v] = min(low[v], idx[w])
            else:
                st.pop()
                if p is not None:
                    low[p] = min(low[p], low[v])
                    if low[v] >= idx[p]:
                        c = set()
                        while True:
                            e = es.pop(); c.add(e[0]); c.add(e[1])
                            if e == (p, v): break
                        out.append(c)
    return out
def reduce2(A):
    """suppress degree <= 2 vertices (keeps planarity and K4 / K3,3 / K5 homeomorph content)"""
    A = {v: set(s) for v, s in A.items()}; todo = list(A)
    while todo:
        v = todo.pop()
        if v not in A or len(A[v]) > 2: continue
        n = list(A.pop(v))
        for x in n: A[x].discard(v)
        if len(n) == 2: A[n[0]].add(n[1]); A[n[1]].add(n[0])
        todo += n
    return A
def planar(A):
    """Demoucron, Malgrange and Pertuiset on each block"""
    return all(_planar_block(reduce2(sub(A, b))) for b in blocks(A) if len(b) > 4)
def _planar_block(A):
    if len(A) < 5: return True
    m = sum(map(len, A.values())) // 2
    if m > 3 * len(A) - 6: return False
    bs = blocks(A)
    if len(bs) != 1 or len(bs[0]) != len(A): return all(_planar_block(reduce2(sub(A, b))) for b in bs if len(b) > 4)
    # a cycle
    r = next(iter(A)); par = {r: None}; st = [r]; cyc = None
    order = []
    def dfs():
        stack = [(r, iter(A[r]))]; on = {r}
        while stack:
            v, it = stack[-1]
            for w in it:
                if w == par[v]: continue
                if w in on:
                    c = [v]
                    while c[-1] != w: c.append(par[c[-1]])
                    return c
                if w not in par: par[w] = v; on.add(w); stack.append((w, iter(A[w]))); break
            else: on.discard(v); stack.pop()
    cyc = dfs()
    inV = set(cyc); inE = {frozenset((cyc[i], cyc[i - 1])) for i in range(len(cyc))}
    faces = [list(cyc), list(cyc)]
    while True:
        # bridges
        brs = []
        for v in inV:
            for w in A[v]:
                if w in inV and v < w and frozenset((v, w)) not in inE: brs.append(({v, w}, [v, w]))
        seen = set()
        for s in A:
            if s in inV or s in seen: continue
            c = {s}; st = [s]; seen.add(s); att = set()
            while st:
                x = st.pop()
                for y in A[x]:
                    if y in inV: att.add(y)
                    elif y not in seen: seen.add(y); c.add(y); st.append(y)
            # path between two attachments through c
            a = next(iter(att)); q = [x for x in A[a] if x in c][:1]; pr = {q[0]: a}; path = None
            for x in q:
                for y in A[x]:
                    if y in inV and y != a:
                        path = [y, x]
                        while path[-1] != a: path.append(pr[path[-1]])
                        break
                    if y in c and y not in pr: pr[y] = x; q.append(y)
                if path: break
            brs.append((att, path))
        if not brs: return True
        best = None
        for att, path in brs:
            fs = [i for i, f in enumerate(faces) if att <= set(f)]
            if not fs: return False
            if best is None or len(fs) < best[0]: best = (len(fs), fs[0], path)
            if len(fs) == 1: break
        _, fi, path = best
        f = faces.pop(fi); i = f.index(path[0]); f = f[i:] + f[:i]; j = f.index(path[-1])
        faces.append(f[:j + 1] + path[-2:0:-1]); faces.append(f[j:] + [f[0]] + path[1:-1])
        inV.update(path); inE.update(frozenset((path[i], path[i + 1])) for i in range(len(path) - 1))
def outerplanar(A):
    B = {v: set(s) for v, s in A.items()}; B[0] = set(A)
    for v in A: B[v].add(0)
    return planar(B)
def has_k4(A): return any(len(reduce2(sub(A, b))) > 3 for b in blocks(A) if len(b) > 3)
def has_k23(A): return any(not outerplanar(sub(A, b)) for b in blocks(A) if len(b) > 4)
def has_k33(A): return any(_k33(sub(A, b)) for b in blocks(A) if len(b) > 5)
def _k33(A):
    """Hall: a 3-connected graph has a K3,3 subdivision iff it is neither planar nor K5; split at separation pairs"""
    A = reduce2(A)
    if len(A) < 6: return False
    bs = blocks(A)
    if len(bs) != 1 or len(bs[0]) != len(A): return any(_k33(sub(A, b)) for b in bs)
    if planar(A): return False
    for a, b in combinations(sorted(A), 2):
        cs = components(A, (a, b))
        if len(cs) > 1:
            for c in cs:
                B = sub(A, c | {a, b}); B[a] = B[a] | {b}; B[b] = B[b] | {a}
                if _k33(B): return True
            return False
    return True
def suppressed(A):
    """(branch vertices, multiset of paths as (end, end, length)) of a graph all of whose nonisolated vertices have degree >= 2; None if some
    component is a bare cycle or a vertex has degree 1"""
    if any(len(A[v]) == 1 for v in A): return None
    br = {v for v in A if len(A[v]) > 2}; paths = []; used = set()
    for v in br:
        for w in A[v]:
            p = [v, w]
            while p[-1] not in br:
                x = p[-1]; n = [y for y in A[x] if y != p[-2]]
                p.append(n[0])
            used.update(p[1:-1])
            if p[0] < p[-1] or p[0] == p[-1]: paths.append((p[0], p[-1], len(p) - 1))
    if any(len(A[v]) == 2 and v not in used for v in A): return None
    return br, paths
def subdivision_of(A):
    """names of the obstruction that A (ignoring isolated vertices) is exactly a subdivision of"""
    s = suppressed(A)
    if s is None: return None
    br, ps = s; pairs = [frozenset(p[:2]) for p in ps]; simple = len(set(pairs)) == len(pairs) and all(len(p) == 2 for p in pairs)
    if len(br) == 5 and simple and len(pairs) == 10: return 'K5'
    if len(br) == 4 and simple and len(pairs) == 6: return 'K4'
    if len(br) == 6 and simple and len(pairs) == 9 and all(len(A[v]) == 3 for v in br):
        v = min(br); side = {x for p in pairs if v in p for x in p if x != v}
        if len(side) == 3 and all(len(p & side) == 1 for p in pairs): return 'K33'
    if len(br) == 2 and len(ps) == 3 and all(len(p) == 2 for p in pairs) and all(l >= 2 for _, _, l in ps): return 'K23'
    return None
def genus_ok(rot, comps):
    """rot: {v: [arc ids in order]}, arcs e and e^1 are twins: faces by tracing, Euler per component"""
    nxt = {}
    for v, l in rot.items():
        for i, e in enumerate(l): nxt[e] = l[(i + 1) % len(l)]
    seen = set(); faces = []
    for e in nxt:
        if e in seen: continue
        f = []
        while e not in seen: seen.add(e); f.append(e); e = nxt[e ^ 1]
        faces.append(f)
    return nxt, faces
if __name__ == '__main__':
    import sys, random, time
    sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import networkx as nx
    rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1); t0 = time.time(); k = 0; T = [0, 0]
    while time.time() - t0 < 30:
        n = rng.randint(1, 14); d = rng.random(); es = [e for e in combinations(range(1, n + 1), 2) if rng.random() < min(1, d * 6 / n)]
        A = norm(n, es); g = nx.Graph(); g.add_nodes_from(A); g.add_edges_from(es)
        p = nx.check_planarity(g)[0]; assert p == planar(A), es; T[p] += 1
        h = g.copy(); h.add_edges_from((0, v) for v in A); assert nx.check_planarity(h)[0] == outerplanar(A), es
        k += 1
    print(k, T)
