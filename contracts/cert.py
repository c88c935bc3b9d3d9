"""Certificate checkers on genuine and corrupted certificates (C13, C14), judged by the oracles (bounded)."""
from .gview import *
from .gview import GV, liveview, GP, OK, NOTOK, NIL, NONEMB, scenario
from cdv.conc import CP, Violation, Reject
from . import emb, oracle as O
from .emb import PLANAR, OUTER, K23, K4, K33, SORTED, NAME
def lists(g, p):
    gv = liveview(g, p); return {v: [(int(e), int(gv.nbr(e))) for e in gv.L.d[v]] for v in range(1, 2 * gv.N + 1)}
def mk(g, rng, n, es, ext=()): return emb.build(g, rng, (n, set(es)), ext)
def arcs(g, p): gv = liveview(g, p); return [e for v in range(1, gv.N + 1) for e in gv.L.d[v]]
def setorder(g, p, v, l):
    """give vertex v the adjacency order l"""
    E = g.field(p, 'E'); V = g.field(p, 'V')
    for i, e in enumerate(l):
        g.poke(E + 16 * e, 'int', l[i + 1] if i + 1 < len(l) else NIL); g.poke(E + 16 * e + 4, 'int', l[i - 1] if i else NIL)
    g.poke(V + 16 * v, 'int', l[0] if l else NIL); g.poke(V + 16 * v + 4, 'int', l[-1] if l else NIL)
def delete(g, p, e): g.call('gp_DeleteEdge', p, e, 0)
def corrupt(g, rng, p, tr):
    """one random change to a rotation system"""
    gv = liveview(g, p); N = gv.N; la = arcs(g, p); k = rng.choice(['first', 'last', 'swap', 'invert', 'delete', 'add', 'move', 'double', 'shift'])
    if not la and k != 'add': return
    e = rng.choice(la) if la else 0; v = gv.own(e) if la else 0
    if k == 'first': l = [x for x in gv.L.d[v] if x != e]; setorder(g, p, v, [e] + l)
    elif k == 'last': setorder(g, p, v, [x for x in gv.L.d[v] if x != e] + [e])
    elif k == 'swap':
        l = list(gv.L.d[v]); i, j = rng.randrange(len(l)), rng.randrange(len(l)); l[i], l[j] = l[j], l[i]
        setorder(g, p, v, l)
    elif k == 'shift':
        l = list(gv.L.d[v]); i = rng.randrange(len(l))
        setorder(g, p, v, l[i:] + l[:i])
    elif k == 'invert': g.call('_InvertVertex', p, v)
    elif k == 'delete': delete(g, p, e)
    elif k in ('add', 'move') and N > 1:
        if k == 'move': delete(g, p, e)
        u, w = rng.sample(range(1, N + 1), 2); g.call('gp_AddEdge', p, u, rng.randint(0, 1), w, rng.randint(0, 1))
    elif k == 'double':
        f = rng.choice(la)
        if f >> 1 != e >> 1: delete(g, p, f)
        u, w = v, gv.nbr(e); g.call('gp_AddEdge', p, u, rng.randint(0, 1), w, rng.randint(0, 1))
    tr.append(k)
@scenario('embedding_check', 'C13')
def embedding_check(g, rng, log):
    flags = rng.choice([PLANAR, PLANAR, OUTER]); G = emb.graph_(rng, rng.choice([4, 6, 9])) if rng.random() < .6 else emb.relabel(emb.drop(emb.triangulation(rng.randint(3, 9), rng) if flags == PLANAR else emb.outergraph(rng.randint(3, 9), rng), rng, rng.choice([0, 0, 1, 3])), rng)
    n, es = G; tr = []; log({'graph': {'n': n, 'edges': sorted(es)}, 'algorithm': NAME[flags], 'changes': tr})
    p = mk(g, rng, n, es); q = GP(g.call('gp_DupGraph', p)); g.tofree.append(('graph', q.addr))
    if emb.embed(g, p, flags) != OK: raise Reject('not embeddable')
    if rng.random() < .6: g.call('gp_SortVertices', p); tr.append('sorted')
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])): corrupt(g, rng, p, tr)
    if rng.random() < .2: corrupt(g, rng, q, tr); tr.append('(original)')
    if rng.random() < .15:
        flags = PLANAR if flags == OUTER else OUTER; g.setfield(p, ('embedFlags',), flags); tr.append('flags')
    log({'graph': {'n': n, 'edges': sorted(es)}, 'algorithm': NAME[flags], 'changes': tr})
    spec.setmode('conc'); b = (lists(g, p), lists(g, q))
    def check(p_, q_):
        r = g.call('gp_TestEmbedResultIntegrity', p_, q_, OK)
        if r not in (OK, NOTOK): raise Violation('result %d' % r)
        return r
    r = check(p, q)
    if (lists(g, p), lists(g, q)) != b: raise Violation('the check changes a graph')
    if liveview(g, p).iflags & SORTED: g.call('gp_SortVertices', p)
    N, rot, nb = emb.adjacency(g, p); l = sorted((min(v, nb[e]), max(v, nb[e])) for v in rot for e in rot[v]); F = l[::2]
    gq = liveview(g, q); m = sorted((min(v, w), max(v, w)) for v in range(1, n + 1) for w in [int(gq.nbr(e)) for e in gq.L.d[v]])[::2]
    ok, outer = emb.euler(N, rot, nb)
    if len(set(m)) != len(m): raise Reject('the original graph is not simple')
    if r == OK:
        if F != m: raise Violation('accepted although the edges differ: %s and %s' % (F, m))
        if not ok: raise Violation('accepted although the rotation system is not planar')
        if flags == OUTER and not outer: raise Violation('accepted as outerplanar although a vertex is not on the external face')
    elif not tr or tr == ['sorted'] or flags == PLANAR and F == m and len(set(F)) == len(F) and ok and not any(x in ('delete', 'add', 'move', 'double') for x in tr):
        raise Violation('a genuine embedding is refused')
OBS = {'K5': (PLANAR,), 'K33': (PLANAR, K33), 'K4': (OUTER, K4), 'K23': (OUTER, K23)}
def nearly(rng):
    """a subdivision, possibly with a flaw"""
    G = emb.subdivide(rng.choice(emb.BASE)(), rng, rng.choice([0, .3, .6]), 3); n, es = G; k = rng.random(); tr = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        o = rng.choice(['drop', 'add', 'tail', 'cycle', 'retarget', 'isolated', 'bigger', 'swap']); tr.append(o); n, es = G
        if o == 'drop': G = emb.drop(G, rng, 1)
        elif o == 'add': G = emb.addrand(G, rng, 1)
        elif o == 'tail': G = emb.glue(G, (2, {(1, 2)}), rng, rng.choice([0, 1, 1]))
        elif o == 'cycle': c = rng.randint(3, 5); G = emb.glue(G, (c, {(i, i + 1) for i in range(1, c)} | {(1, c)}), rng, rng.choice([0, 0, 1]))
        elif o == 'retarget' and es:
            e = rng.choice(sorted(es)); v = rng.choice(e); w = rng.randint(1, n)
            if w != v: G = n, (es - {e}) | {(min(v, w), max(v, w))}
        elif o == 'swap' and len(es) > 1:
            (a, b), (c, d) = rng.sample(sorted(es), 2)
            if len({a, b, c, d}) == 4 and (min(a, d), max(a, d)) not in es and (min(b, c), max(b, c)) not in es: G = n, (es - {(a, b), (c, d)}) | {(min(a, d), max(a, d)), (min(b, c), max(b, c))}
        elif o == 'isolated': G = n + rng.randint(1, 3), es
        elif o == 'bigger': G = emb.glue(G, emb.subdivide(rng.choice(emb.BASE)(), rng), rng, rng.choice([0, 1]))
    return emb.relabel(G, rng), tr
@scenario('obstruction_check', 'C14')
def obstruction_check(g, rng, log):
    (n, F), tr = nearly(rng); flags = rng.choice([PLANAR, OUTER, K23, K4, K33]); es = set(F)
    name = O.subdivision_of(O.norm(n, F))
    if name and rng.random() < .7: flags = rng.choice(OBS[name])
    for _ in range(rng.choice([0, 1, 3])): es = emb.addrand((n, es), rng, 1)[1]
    es = sorted(es)
    if rng.random() < .2 and es: es.remove(rng.choice(es)); tr.append('edge missing in the original')
    if rng.random() < .1 and es and n > 1:
        e = rng.choice(es); es.remove(e); es = sorted(emb.addrand((n, set(es)), rng, 1)[1]); tr.append('original changed')
    ext = [flags] if flags in emb.ATTACH else []
    if rng.random() < .15: ext += [rng.choice(list(emb.ATTACH))]
    log({'graph': {'n': n, 'edges': sorted(F)}, 'original': es, 'algorithm': NAME[flags], 'extensions': [NAME[f] for f in ext], 'changes': tr})
    p = mk(g, rng, n, F, ext); q = mk(g, rng, n if rng.random() < .95 else n + 1, es); g.setfield(p, ('embedFlags',), flags)
    dbl = False
    if F and rng.random() < .08:
        a, b = rng.choice(sorted(F)); g.call('gp_AddEdge', p, a, 0, b, 0); dbl = True; tr.append('doubled')
    k = rng.random()
    if n > 1 and k < .3: g.call('gp_CreateDFSTree', p); g.call('gp_SortVertices', p); tr.append('sorted')
    elif n > 1 and k < .45: g.call('gp_CreateDFSTree', q); g.call('gp_SortVertices', q); tr.append('original sorted')
    log({'graph': {'n': n, 'edges': sorted(F)}, 'original': es, 'order of the original': g.field(q, 'N'), 'algorithm': NAME[flags], 'extensions': [NAME[f] for f in ext], 'changes': tr})
    spec.setmode('conc'); b = (lists(g, p), lists(g, q)); nq = g.field(q, 'N')
    r = g.call('gp_TestEmbedResultIntegrity', p, q, NONEMB)
    if (lists(g, p), lists(g, q)) != b: raise Violation('the check changes a graph')
    good = not dbl and set(F) <= set(es) and name is not None and flags in OBS[name] and nq == n
    if r == NONEMB and not good: raise Violation('accepted although the subgraph is %s of the original graph%s' % ('no subgraph' if not set(F) <= set(es) or nq != n else 'a subdivision of %s' % name if name else 'no subdivision of an obstruction', ', doubled edge' if dbl else ''))
    if r != NONEMB and good: raise Violation('a genuine obstruction is refused')
    if r not in (NONEMB, NOTOK): raise Violation('result %d' % r)
