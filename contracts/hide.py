"""Contracts of graphUtils.c: hiding and restoring edges and vertices, identification and contraction (C03)"""
from .graph import *
from .graph import scenario, Violation
from .gview import CP_stack
P = 'C03'
class Links:
    """the link cells of a graph as functions (a state snapshot that can be functionally updated)"""
    def __init__(s, nx, pv, fi, la): s.nx = nx; s.pv = pv; s.fi = fi; s.la = la
    @staticmethod
    def of(g): return Links(g.next, g.prev, g.first, g.last)
    def restore1(o, a, v):
        """_RestoreArc: the neighbours named by a's own links point to a again"""
        n, p = o.nx(a), o.pv(a)
        return Links(lambda x: Ite(And(Ne(p, NIL), Eq(x, p)), a, lambda: o.nx(x)), lambda x: Ite(And(Ne(n, NIL), Eq(x, n)), a, lambda: o.pv(x)),
            lambda w: Ite(And(Eq(p, NIL), Eq(w, v)), a, lambda: o.fi(w)), lambda w: Ite(And(Eq(n, NIL), Eq(w, v)), a, lambda: o.la(w)))
    def restore(o, g, e):
        tw = Xor1(e)
        return o.restore1(tw, g.nbr(e)).restore1(e, g.nbr(tw))
def samelinks(a, b, g):
    """equal link cells (a: of a state read from memory)"""
    return [('next links', All(2, g.bound, lambda x: Eq(a.nx(x), b.nx(x)), pat=lambda x: [a.nx(x)])), ('prev links', All(2, g.bound, lambda x: Eq(a.pv(x), b.pv(x)), pat=lambda x: [a.pv(x)])),
        ('first arcs', All(1, g.nv, lambda w: Eq(a.fi(w), b.fi(w)), pat=lambda w: [a.fi(w)])), ('last arcs', All(1, g.nv, lambda w: Eq(a.la(w), b.la(w)), pat=lambda w: [a.la(w)]))]
# ---- restoring: the arc's own links say where it goes ----
def rpos(g, L, x): return Ite(Eq(g.prev(x), NIL), 0, lambda: L.pos(g.prev(x)) + 1)
def restorable(g, L, x, prev=None, nxt=None):
    """x is not listed; its links name two consecutive places of its vertex's list"""
    v = g.nbr(Xor1(x)); p = rpos(g, L, x)
    return And(Not(L.live(x)), g.anyv(v), Or(Eq(g.prev(x), NIL), And(g.arc(g.prev(x)), lambda: L.live(g.prev(x)), lambda: Eq(L.own(g.prev(x)), v))),
        lambda: Eq(g.next(x), Ite(Lt(p, L.deg(v)), lambda: L.at(v, p), NIL)))
def rest_L1(g, e): return g.L.insert(g.nbr(e), rpos(g, g.L, Xor1(e)), Xor1(e))
def rest_L(g, e):
    L1 = rest_L1(g, e); return L1.insert(g.nbr(Xor1(e)), rpos(g, L1, e), e)
def hide_L(o, e): return o.L.remove(e).remove(Xor1(e))
HREQ = lambda v, a: gwf(v, a) + [v.g.arc(a.e), ('the edge is visible', v.g.live(a.e))]
def hide_post(o, n, a, r):
    o, n = o.g, n.g
    return [(l, x) for l, x in zip(('degrees drop at the two ends only', 'only the two arcs leave the lists, order kept'), lists_equal(n.L, hide_L(o, a.e), n.bound, n.nv))] + n.wf() \
        + [('undo: ' + l, x) for l, x in samelinks(Links.of(o), Links.of(n).restore(n, a.e), n)] \
        + [('place of the twin', Eq(rpos(n, n.L, Xor1(a.e)), o.L.remove(a.e).pos(Xor1(a.e)))), ('place of the arc', lambda: Eq(rpos(n, rest_L1(n, a.e), a.e), o.pos(a.e))), ('the twin can be restored', lambda: restorable(n, n.L, Xor1(a.e))), ('then the arc can be restored', lambda: restorable(n, rest_L1(n, a.e), a.e))]
def hide_ghost(o, n, a, r): n.g.setL(hide_L(o.g, a.e))
for nm in ('_HideEdge', 'gp_HideEdge'):
    contract(nm, [('g', 'g'), ('e', 'arc')], prop=(P, 'C01'), modifies=EL + GHM, requires=HREQ, ghost=hide_ghost, chain=('place of the twin', 'place of the arc'), ensures=hide_post)
RREQ = lambda v, a: gwf(v, a) + [v.g.arc(a.e), ('in use', And(Ne(v.g.nbr(a.e), NIL), lambda: Ne(v.g.nbr(Xor1(a.e)), NIL))), ('the twin\'s links name its place', lambda: restorable(v.g, v.g.L, Xor1(a.e))),
    ('the arc\'s links name its place once the twin is back', lambda: restorable(v.g, rest_L1(v.g, a.e), a.e))] if spec.MODE == 'conc' else \
    gwf(v, a) + [v.g.arc(a.e), And(Ne(v.g.nbr(a.e), NIL), Ne(v.g.nbr(Xor1(a.e)), NIL)), restorable(v.g, v.g.L, Xor1(a.e)), restorable(v.g, rest_L1(v.g, a.e), a.e)]
def rest_post(o, n, a, r):
    o, n = o.g, n.g
    return [(l, x) for l, x in zip(('degrees grow at the two ends only', 'both arcs are back at the places their links name, order otherwise kept'), lists_equal(n.L, rest_L(o, a.e), n.bound, n.nv))] + n.wf() \
        + [('cells written: ' + l, x) for l, x in samelinks(Links.of(n), Links.of(o).restore(o, a.e), n)]
def rest_ghost(o, n, a, r): n.g.setL(rest_L(o.g, a.e))
def rest_gen(g, rng):
    p = rgraph(g, rng, 'g')
    if g.garcs:
        e = rng.choice(g.garcs); g.call('gp_HideEdge', p, e); g.trace.append('hide %d' % e)
        return [p, e]
    return [p, 2]
for nm in ('_RestoreEdge', 'gp_RestoreEdge'):
    contract(nm, [('g', 'g'), ('e', 'arc')], prop=(P, 'C01'), modifies=EL + GHM, requires=RREQ, ghost=rest_ghost, ensures=rest_post, gen=rest_gen)
contract('w_HideRestore', [('g', 'g'), ('e', 'arc')], prop=P, modifies=EL + GHM, requires=HREQ,
    ensures=lambda o, n, a, r: [('memory restored: ' + l, x) for l, x in samelinks(Links.of(n.g), Links.of(o.g), n.g)])
# ---------------------------------------------------------------- bounded: LIFO histories of vertex hiding, contraction and identification
def hist_lists(gv): return {v: list(l) for v, l in gv.L.d.items()}
def hist_snap(o):
    L = hist_lists(o)
    return {'L': L, 'nbr': {x: o.nbr(x) for l in L.values() for x in l}, 'ef': {e: o.ef(e) for e in range(2, o.bound)}, 'vf': {v: o.vf(v) for v in range(1, 2 * o.N + 1)}, 'M': o.M, 'size': o.stk.size}
def hist_diff(m, n):
    for k in ('L', 'nbr', 'ef', 'vf', 'M', 'size'):
        if m[k] != n[k]:
            if isinstance(m[k], dict): return k + ': ' + '; '.join('%s expected %s, found %s' % (x, m[k].get(x), n[k].get(x)) for x in sorted(set(m[k]) | set(n[k])) if m[k].get(x) != n[k].get(x))[:300]
            return '%s expected %s, found %s' % (k, m[k], n[k])
    return None
def hide_model(m, e):
    m = dict(m, L={v: list(l) for v, l in m['L'].items()}, nbr=dict(m['nbr']))
    for x in (e, e ^ 1):
        for l in m['L'].values():
            if x in l: l.remove(x)
        m['nbr'].pop(x)
    return m
def identify_model(m, u, v, before):
    """-> model after identifying v with u, number of hidden edges"""
    nu = {m['nbr'][x] for x in m['L'][u]}; k = 0
    for x in list(m['L'][v]):
        if m['nbr'][x] in nu: m = hide_model(m, x); k += 1
    m = dict(m, L={w: list(l) for w, l in m['L'].items()}, nbr=dict(m['nbr']))
    mv = m['L'][v]; m['L'][v] = []
    for x in mv: m['nbr'][x ^ 1] = u
    lu = m['L'][u]; i = lu.index(before) if before else len(lu)
    m['L'][u] = lu[:i] + mv + lu[i:]
    return m, k
def contract_model(m, e):
    u, v = m['nbr'][e ^ 1], m['nbr'][e]; l = m['L'][u]; i = l.index(e)
    m, k = identify_model(hide_model(m, e), u, v, l[i + 1] if i + 1 < len(l) else 0)
    return m, k + 1
@scenario('vertex_histories', P, configs=('rel', 'dbg'))
def vertex_histories(g, rng, log):
    p = rgraph(g, rng, 'g', simple=True, virtual=rng.random() < .3, stack=False, flags=True, maxn=rng.choice([4, 7, 10]))
    V = g.field(p, 'V'); N = g.gN
    for v in range(1, 2 * N + 1): g.poke(V + 16 * v + 12, 'uint', g.peek(V + 16 * v + 12, 'uint') & ~1)
    sp = CP_stack(g, p); base = rng.choice([0, 0, 0, 3])
    for i in range(base): g.poke(g.field(sp, 'S') + 4 * i, 'int', rng.randint(0, 9))
    g.setfield(sp, ('size',), base)
    now = lambda: hist_snap(liveview(g, p))
    spec.setmode('conc'); m = now(); hist = []; cap = liveview(g, p).stk.cap
    def check(what, m):
        gv = liveview(g, p); n = now(); d = hist_diff(m, n)
        if d: raise Violation('%s: %s' % (what, d))
        for lab, x in [c for c in gv.adj() if isinstance(c, tuple)]:
            if not x: raise Violation('%s: %s' % (what, lab))
    if g.call('gp_HideVertex', p, NIL) != NOTOK or g.call('gp_ContractEdge', p, NIL) != NOTOK or (base < 7 and g.call('gp_RestoreVertex', p) != NOTOK): raise Violation('NIL or an empty history is not refused')
    check('refused operations', m)
    top = N * (2 if rng.random() < .3 else 1); vs = range(1, (2 * N if any(m['L'][v] for v in range(N + 1, 2 * N + 1)) else N) + 1)
    for step in range(rng.randint(1, 3 * top)):
        z = rng.random(); arcs = sorted(m['nbr'])
        if z < .3 and hist:
            kind, old, e = hist.pop(); log({'trace': g.trace + ['restore ' + kind]}); g.trace.append('restore')
            if kind == 'edge': g.call('gp_RestoreEdge', p, e)
            elif g.call('gp_RestoreVertex', p) != OK: raise Violation('gp_RestoreVertex failed')
            m = old; check('after restoring (%s)' % kind, m); continue
        if z < .5: op = 'hide'; v = rng.choice(vs); n = m
        elif z < .7 and arcs: op = 'contract'; e = rng.choice(arcs)
        elif z < .9 and len(vs) > 1: op = 'identify'
        elif arcs:
            e = rng.choice(arcs); g.trace.append('hide edge %d' % e); log({'trace': g.trace}); g.call('gp_HideEdge', p, e)
            hist.append(('edge', m, e)); m = hide_model(m, e); check('after hiding an edge', m); continue
        else: continue
        if op == 'hide':
            k = len(m['L'][v]); g.trace.append('hide vertex %d' % v); log({'trace': g.trace}); r = g.call('gp_HideVertex', p, v)
            for x in m['L'][v]: n = hide_model(n, x)
        elif op == 'contract':
            g.trace.append('contract %d' % e); log({'trace': g.trace}); r = g.call('gp_ContractEdge', p, e); n, k = contract_model(m, e)
        else:
            u, v = rng.sample(list(vs), 2); b = rng.choice([0] + m['L'][u]); g.trace.append('identify %d with %d before %d' % (v, u, b)); log({'trace': g.trace})
            r = g.call('gp_IdentifyVertices', p, u, v, b); f = [x for x in m['L'][u] if m['nbr'][x] == v]
            n, k = contract_model(m, f[0]) if f else identify_model(m, u, v, b)
        n = dict(n, size=m['size'] + k + 7)
        if r != OK:
            if r != NOTOK or m['size'] + len(m['L'][v if op != 'contract' else m['nbr'][e]]) + 7 <= cap: raise Violation('%s failed with %s' % (op, r))
            check('a refused operation changes nothing', m); continue
        hist.append((op, m, 0)); m = n; check('after ' + op, m)
    if base == 0 and not any(k == 'edge' for k, _, _ in hist):
        log({'trace': g.trace + ['restore all']})
        if g.call('gp_RestoreVertices', p) != OK: raise Violation('gp_RestoreVertices failed')
        if hist: check('after restoring all', hist[0][1])
        return
    while hist:
        kind, old, e = hist.pop(); log({'trace': g.trace + ['restore ' + kind]})
        if kind == 'edge': g.call('gp_RestoreEdge', p, e)
        elif g.call('gp_RestoreVertex', p) != OK: raise Violation('gp_RestoreVertex failed')
        check('after restoring (%s)' % kind, old)
