"""The visibility representation (C19): the check of positions under contract (proved); the drawing and its rendering on the real code,
against a renderer and a validity test of our own (bounded)."""
import ctypes
from . import emb, oracle as O
from .embprim import *
from .isol import VL
from cdv.conc import CP, Violation, Reject
from cdv.front import CT
from .gio import fresh, failing, nofail, ppvar
P = 'C19'
DCTX = CT('struct', name='DrawPlanarContext')
class DV:
    """view of a drawing context"""
    def __init__(s, m, h): s.m = m; s.h = h
    g = property(lambda s: GV(s.m, s.m.ptr(s.h, ('theGraph',))))
    E = property(lambda s: s.m.ptr(s.h, ('E',))); VI = property(lambda s: s.m.ptr(s.h, ('VI',)))
    def e(s, e, k): return s.m.at(s.E, (k,), e)
    def v(s, v, k): return s.m.at(s.VI, (k,), v)
class DKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, DCTX, single=True, kind='owned')
        for f, ty in (('E', 'DrawPlanar_EdgeRec'), ('VI', 'DrawPlanar_VertexInfo')):
            ln = t.var('%s:%s#len' % (tag, f)); st.assume(t.le(0, ln)); st.mem[(b.id, (f,))] = Ptr(X.new_block(st, '%s:%s' % (tag, f), CT('struct', name=ty), ln, kind='owned'), 0)
        st.mem[(b.id, ('theGraph',))] = KINDS['g'].make(X, st, tag + ':theGraph')
        return Ptr(b, 0, t.FALSE)
    def view(s, mem, val): return DV(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        for f in ('E', 'VI'): d[tag + ':' + f] = mem.st.mem[(val.b.id, (f,))].b
        d.update(KINDS['g'].blocks(mem, mem.st.mem[(val.b.id, ('theGraph',))], tag + ':theGraph')); return d
    def cmake(s, g, rng, nm):
        while True:
            G = emb.piece(rng, 7)
            if O.planar(O.norm(*G)): break
        p = emb.build(g, rng, G, [emb.DRAW])
        if rng.random() < .9: emb.embed(g, p, emb.DRAW)
        d = Drawing(g, p); R = d.rep(); tr = []; g.tofree.append(('graph', p.addr))
        for _ in range(rng.choice([0, 0, 1, 1, 2])): corrupt(R, rng, tr)
        d.store(R)
        if R.ends and rng.random() < .1: g.call('gp_DeleteEdge', p, rng.choice(list(R.ends)), 0)
        g.trace.append('%s %s %s' % (sorted(G[1]), R.V, R.E)); return d.c
KINDS['dctx'] = DKind()
def vok(d, v): g = d.g; return And(Le(0, d.v(v, 'pos')), Lt(d.v(v, 'pos'), g.N), Le(0, d.v(v, 'start')), Le(d.v(v, 'start'), d.v(v, 'end')), Lt(d.v(v, 'end'), Max(g.M, 1)))
def eok(d, e): g = d.g; return And(*[Eq(d.e(e, k), d.e(Xor1(e), k)) for k in ('pos', 'start', 'end')], Le(0, d.e(e, 'pos')), Lt(d.e(e, 'pos'), g.M), Le(0, d.e(e, 'start')), Le(d.e(e, 'start'), d.e(e, 'end')), Lt(d.e(e, 'end'), g.N))
def isend(d, e, v): return Or(Eq(d.g.nbr(e), v), Eq(d.g.nbr(Xor1(e)), v))
def evok(d, e, v):
    return Ite(isend(d, e, v), lambda: And(Or(Eq(d.e(e, 'start'), d.v(v, 'pos')), Eq(d.e(e, 'end'), d.v(v, 'pos'))), Le(d.v(v, 'start'), d.e(e, 'pos')), Le(d.e(e, 'pos'), d.v(v, 'end'))),
        lambda: Not(And(Le(d.e(e, 'start'), d.v(v, 'pos')), Le(d.v(v, 'pos'), d.e(e, 'end')), Le(d.v(v, 'start'), d.e(e, 'pos')), Le(d.e(e, 'pos'), d.v(v, 'end')))))
def even(e): return Eq(Mod(e, 2), 0)
def vu(d, hi): return [All(1, hi, lambda v: vok(d, v), pat=lambda v: [d.v(v, 'pos')]), All2(1, hi, 1, lambda v: hi, lambda v, w: Implies(Ne(v, w), Ne(d.v(v, 'pos'), d.v(w, 'pos'))), pat=lambda v, w: [d.v(v, 'pos'), d.v(w, 'pos')])]
def eu(d, hi): return [All(2, hi, lambda e: Implies(even(e), eok(d, e)), pat=lambda e: [d.e(e, 'pos')]), All2(2, hi, 2, lambda v: hi, lambda v, w: Implies(And(Ne(v, w), even(v), even(w)), Ne(d.e(v, 'pos'), d.e(w, 'pos'))), pat=lambda v, w: [d.e(v, 'pos'), d.e(w, 'pos')])]
def ev(d, hi): return All2(2, hi, 1, lambda e: 1 + d.g.N, lambda e, v: Implies(even(e), evok(d, e, v)), pat=lambda e, v: [d.e(e, 'pos'), d.v(v, 'pos')])
def vis(x): return Ne(Bits(x, 1), t.bvc(0))
D = lambda c: c.X.views_of(c.st).d
def l0(c):
    d = c.X.old.d; n = D(c); v = c.v('v')
    return [Le(1, v, 1 + d.g.N)] + vu(d, v) + [All(1, v, lambda w: vis(n.g.vf(d.v(w, 'pos') + 1)), pat=lambda w: [d.v(w, 'pos')])]
def l1(c):
    d = c.X.old.d; n = D(c); e = c.v('e')
    return [Le(2, e), Le(e, d.g.bound), even(e), All(1, d.g.N + 1, lambda v: vok(d, v))] + eu(d, e) + [All(2, e, lambda x: Implies(even(x), vis(n.g.ef(2 * d.e(x, 'pos') + 2))), pat=lambda x: [d.e(x, 'pos')])]
def l2(c): d = c.X.old.d; e = c.v('e'); return [Le(2, e), Le(e, d.g.bound), even(e), ev(d, e)]
def l3(c): d = c.X.old.d; e = c.v('e'); v = c.v('v'); return [Le(1, v, 1 + d.g.N), All(1, v, lambda w: evok(d, e, w), pat=lambda w: [d.v(w, 'pos')])]
CL = dict(VL); CL.update({'_CheckVisibilityRepresentationIntegrity:0': (l0, lambda c: 1 + c.X.old.d.g.N - c.v('v')), '_CheckVisibilityRepresentationIntegrity:1': (l1, lambda c: c.X.old.d.g.bound - c.v('e')),
    '_CheckVisibilityRepresentationIntegrity:2': (l2, lambda c: c.X.old.d.g.bound - c.v('e')), '_CheckVisibilityRepresentationIntegrity:3': (l3, lambda c: 1 + c.X.old.d.g.N - c.v('v'))})
contract('_CheckVisibilityRepresentationIntegrity', [('d', 'dctx')], prop=P, modular=False, modifies=['d:theGraph:E.flags', 'd:theGraph:V.flags'], loops=CL, configs=('rel', 'dbg'),
    requires=lambda v, a: v.d.g.wf() + [('room for every vertex and arc', And(Le(1 + v.d.g.N, v.d.m.length(v.d.VI)), Le(2 + v.d.g.cap, v.d.m.length(v.d.E))))],
    ensures=lambda o, n, a, r: [('OK or NOTOK', Or(Eq(r, OK), Eq(r, NOTOK)))] + [(l, Implies(Eq(r, OK), x)) for l, x in zip(('vertices lie in the grid', 'vertices are in different rows', 'edges lie in the grid', 'edges are in different columns'), vu(o.d, 1 + o.d.g.N) + eu(o.d, o.d.g.bound))] +
        [('edges end at their endpoints and cross no other vertex', Implies(Eq(r, OK), ev(o.d, o.d.g.bound))), ('every edge is in use', Implies(Eq(r, OK), Eq(o.d.g.holes.size, 0)))])
# ---------------------------------------------------------------- proved: ranges of edges and vertices
def primn(v): g = v.d.g; return ('edges in use join vertices', All(2, g.bound, lambda e: Implies(Ne(g.nbr(e), NIL), Le(g.nbr(e), g.N), Le(1, g.nbr(e))), pat=lambda e: [g.nbr(e)]))
def room(v): return ('room for every vertex and arc', And(Le(1 + v.d.g.N, v.d.m.length(v.d.VI)), Le(2 + v.d.g.cap, v.d.m.length(v.d.E))))
def er(o, n, e):
    p, q = o.v(o.g.nbr(e), 'pos'), o.v(o.g.nbr(Xor1(e)), 'pos')
    return And(Eq(n.e(e, 'start'), Min(p, q)), Eq(n.e(e, 'end'), Max(p, q)), Eq(n.e(Xor1(e), 'start'), Min(p, q)), Eq(n.e(Xor1(e), 'end'), Max(p, q)))
contract('_ComputeEdgeRanges', [('d', 'dctx')], prop=P, modular=False, modifies=['d:E.start', 'd:E.end'], requires=lambda v, a: v.d.g.wf() + [room(v), primn(v)], configs=('rel', 'dbg'),
    loops={'_ComputeEdgeRanges:0': (lambda c: [Le(2, c.v('e')), Le(c.v('e'), c.X.old.d.g.bound), even(c.v('e')), All(2, c.v('e'), lambda e: Implies(even(e), er(c.X.old.d, D(c), e)), pat=lambda e: [D(c).e(e, 'start')])], lambda c: c.X.old.d.g.bound - c.v('e'))},
    ensures=lambda o, n, a, r: [('refused exactly if there are free edge locations', Eq(r, Ite(Eq(o.d.g.holes.size, 0), OK, NOTOK))), ('every edge spans the rows of its endpoints', Implies(Eq(r, OK), All(2, o.d.g.bound, lambda e: Implies(even(e), er(o.d, n.d, e)), pat=lambda e: [n.d.e(e, 'start')])))])
def vr(o, n, v):
    return And(Implies(Eq(o.g.deg(v), 0), Eq(n.v(v, 'start'), 0), Eq(n.v(v, 'end'), 0)))
def vr2(o, n, hi): return All2(1, hi, 0, lambda v: o.g.deg(v), lambda v, k: And(Le(n.v(v, 'start'), o.e(o.g.at(v, k), 'pos')), Le(o.e(o.g.at(v, k), 'pos'), n.v(v, 'end'))), pat=lambda v, k: [o.g.at(v, k)])
def r0(c): o, n = c.X.old.d, D(c); v = c.v('v'); return [Le(1, v, 1 + o.g.N), All(1, v, lambda w: vr(o, n, w), pat=lambda w: [n.v(w, 'start')]), vr2(o, n, v)]
def r1(c):
    o = c.X.old.d; e, v = c.v('e'), c.v('v'); k = Ite(Eq(e, NIL), lambda: o.g.deg(v), lambda: o.g.pos(e))
    return [Or(Eq(e, NIL), And(o.g.arc(e), o.g.live(e), Eq(o.g.own(e), v))), All(0, k, lambda j: And(Le(c.v('min'), o.e(o.g.at(v, j), 'pos')), Le(o.e(o.g.at(v, j), 'pos'), c.v('max'))), pat=lambda j: [o.g.at(v, j)])]
contract('_ComputeVertexRanges', [('d', 'dctx')], prop=P, modular=False, modifies=['d:VI.start', 'd:VI.end'], requires=lambda v, a: v.d.g.wf() + [room(v)], configs=('rel', 'dbg'),
    loops={'_ComputeVertexRanges:0': (r0, lambda c: 1 + c.X.old.d.g.N - c.v('v')), '_ComputeVertexRanges:1': (r1, lambda c: c.X.old.d.g.deg(c.v('v')) - Ite(Eq(c.v('e'), NIL), lambda: c.X.old.d.g.deg(c.v('v')), lambda: c.X.old.d.g.pos(c.v('e'))))},
    ensures=lambda o, n, a, r: [('OK', Eq(r, OK)), ('a vertex without edges is in column 0', All(1, 1 + o.d.g.N, lambda w: vr(o.d, n.d, w), pat=lambda w: [n.d.v(w, 'start')])), ('a vertex covers the columns of its edges', vr2(o.d, n.d, 1 + o.d.g.N))])
# ---------------------------------------------------------------- bounded: drawings, corrupted drawings and their rendering
class Rep:
    """positions as plain numbers"""
    def __init__(s, N, ends, V, E): s.N = N; s.ends = ends; s.V = V; s.E = E
    def bad(s):
        M = len(s.ends); W = max(M, 1)
        for v, (p, a, b) in s.V.items():
            if not (0 <= p < s.N and 0 <= a <= b < W): return 'vertex %d outside the grid' % v
        if len({x[0] for x in s.V.values()}) != s.N: return 'two vertices in one row'
        for e, (x, y) in s.E.items():
            if x != y: return 'the arcs of edge %d differ' % e
            if not (0 <= x[0] < M and 0 <= x[1] <= x[2] < s.N): return 'edge %d outside the grid' % e
        if len({x[0] for x, y in s.E.values()}) != M: return 'two edges in one column'
        for e, ((c, t0, t1), y) in s.E.items():
            for v, (p, a, b) in s.V.items():
                if v in s.ends[e]:
                    if p not in (t0, t1) or not a <= c <= b: return 'edge %d does not end at vertex %d' % (e, v)
                elif t0 <= p <= t1 and a <= c <= b: return 'edge %d crosses vertex %d' % (e, v)
        return None
    def judge(s, text, off):
        """does the text show this representation?"""
        M = len(s.ends); L = text.split('\n')
        if len(text) != 2 * s.N * (M + 1) or len(L) != 2 * s.N + 1 or L[-1] or any(len(x) != M for x in L[:-1]): return 'the text is not a grid of %d lines of %d characters' % (2 * s.N, M)
        left = {(r, c) for r in range(2 * s.N) for c in range(M) if L[r][c] != ' '}
        for e, ((c, t0, t1), _) in s.E.items():
            for r in range(2 * t0 + 1, 2 * t1):
                if L[r][c] != '|': return 'edge %d in column %d is broken in line %d' % (e, c, r)
                left.discard((r, c))
        for v, (p, a, b) in s.V.items():
            lab = str(v - off); bar = L[2 * p][a:b + 1]; mid = (a + b) // 2
            if b - a + 1 >= len(lab):
                if bar.strip('-') != lab: return 'vertex %s is drawn as %r' % (lab, bar)
            else:
                if bar[mid - a] != (lab[0] if len(lab) == 2 else '*') or bar.replace(bar[mid - a], '', 1).strip('-'): return 'vertex %s is drawn as %r' % (lab, bar)
                if L[2 * p + 1][mid] not in (lab[-1], '|'): return 'the last digit of label %s is missing' % lab
                left.discard((2 * p + 1, mid))
            left -= {(2 * p, c) for c in range(a, b + 1)}
        return 'stray marks at %s' % sorted(left)[:5] if left else None
VF = ('pos', 'start', 'end')
class Drawing:
    def __init__(s, g, p):
        s.g = g; s.p = p; i = ctypes.c_int.in_dll(g.lib, 'DRAWPLANAR_ID').value
        s.c = CP(g.call('gp_GetExtension', p, i), DCTX); s.vt = CT('struct', name='DrawPlanar_VertexInfo'); s.et = CT('struct', name='DrawPlanar_EdgeRec')
    def base(s, v): return (s.g.field(s.c, 'VI'), s.vt) if v else (s.g.field(s.c, 'E'), s.et)
    def get(s, v, i): b, ty = s.base(v); p = CP(b + i * s.g.prog.sizeof(ty), ty); return tuple(s.g.field(p, k) for k in VF)
    def put(s, v, i, x):
        b, ty = s.base(v); p = CP(b + i * s.g.prog.sizeof(ty), ty)
        for k, y in zip(VF, x): s.g.setfield(p, (k,), y)
    def rep(s):
        gv = liveview(s.g, s.p); es = range(2, gv.bound, 2)
        return Rep(gv.N, {e: (int(gv.nbr(e)), int(gv.nbr(e ^ 1))) for e in es}, {v: s.get(1, v) for v in range(1, gv.N + 1)}, {e: (s.get(0, e), s.get(0, e ^ 1)) for e in es})
    def store(s, R):
        for v in R.V: s.put(1, v, R.V[v])
        for e in R.E: s.put(0, e, R.E[e][0]); s.put(0, e ^ 1, R.E[e][1])
def corrupt(R, rng, tr):
    N, M = R.N, len(R.ends); k = rng.random(); val = lambda hi: rng.choice([-1, 0, hi - 1, hi, hi + 1, rng.randint(0, max(hi, 1)), rng.randint(0, max(hi, 1))] + ([2**31 - 1, -2**31] if rng.random() < .1 else []))
    def chg(x, i, y): x = list(x); x[i] = y; return tuple(x)
    if k < .35:
        v = rng.choice(list(R.V)); i = rng.randrange(3); y = rng.choice([R.V[v][i] + rng.choice([-1, 1]), val(N if i == 0 else M)]); R.V[v] = chg(R.V[v], i, y); tr.append('vertex %d %s=%d' % (v, VF[i], y))
    elif k < .65 and M:
        e = rng.choice(list(R.E)); i = rng.randrange(3); y = rng.choice([R.E[e][0][i] + rng.choice([-1, 1]), val(M if i == 0 else N)]); both = rng.random() < .8
        R.E[e] = (chg(R.E[e][0], i, y), chg(R.E[e][1], i, y) if both else R.E[e][1]); tr.append('edge %d %s=%d%s' % (e, VF[i], y, '' if both else ' (one arc)'))
    elif k < .75 and N > 1: u, w = rng.sample(list(R.V), 2); R.V[u], R.V[w] = R.V[w], R.V[u]; tr.append('vertices %d %d exchanged' % (u, w))
    elif k < .82 and N > 1: u, w = rng.sample(list(R.V), 2); a, b = R.V[u], R.V[w]; R.V[u], R.V[w] = (b[0],) + a[1:], (a[0],) + b[1:]; tr.append('rows of %d %d exchanged' % (u, w))
    elif k < .94 and M > 1:
        u, w = rng.sample(list(R.E), 2); a, b = R.E[u][0][0], R.E[w][0][0]; R.E[u] = tuple(chg(x, 0, b) for x in R.E[u]); R.E[w] = tuple(chg(x, 0, a) for x in R.E[w]); tr.append('columns of edges %d %d exchanged' % (u, w))
    elif M:
        e = rng.choice(list(R.E)); R.E[e] = tuple((c, b, a) for c, a, b in R.E[e]); tr.append('edge %d upside down' % e)
def reshape(R, rng, tr):
    """another valid representation from a valid one"""
    N, M = R.N, len(R.ends); k = rng.randrange(4)
    if k == 0: R.V = {v: (N - 1 - p, a, b) for v, (p, a, b) in R.V.items()}; R.E = {e: tuple((c, N - 1 - b, N - 1 - a) for c, a, b in x) for e, x in R.E.items()}; tr.append('rows reversed')
    elif k == 1 and M: R.V = {v: (p, M - 1 - b, M - 1 - a) for v, (p, a, b) in R.V.items()}; R.E = {e: tuple((M - 1 - c, a, b) for c, a, b in x) for e, x in R.E.items()}; tr.append('columns reversed')
    elif k == 2:
        # a wider bar where that is possible
        v = rng.choice(list(R.V)); p, a, b = R.V[v]; S = Rep(N, R.ends, dict(R.V), R.E); S.V[v] = (p, max(0, a - rng.randint(0, 2)), min(max(M, 1) - 1, b + rng.randint(0, 2)))
        if not S.bad(): R.V = S.V; tr.append('vertex %d wider' % v)
    else:
        u = [v for v in R.V if not any(v in x for x in R.ends.values())]
        if u: v = rng.choice(u); S = Rep(N, R.ends, dict(R.V), R.E); c = rng.randrange(max(M, 1)); S.V[v] = (R.V[v][0], c, c); R.V = R.V if S.bad() else S.V
@scenario('drawing', P)
def drawing(g, rng, log):
    big = rng.random() < .12; G = emb.graph_(rng, rng.choice([4, 6, 9])) if not big else emb.relabel(rng.choice([lambda: emb.drop(emb.triangulation(rng.randint(95, 130), rng), rng, rng.choice([0, 20, 120, 200])), lambda: emb.drop(emb.outergraph(rng.randint(95, 130), rng), rng, rng.choice([0, 30, 100]))])(), rng)
    n, es = G; tr = []; log({'graph': {'n': n, 'edges': sorted(es)}, 'trace': tr}); embedded = big or rng.random() < .8
    if embedded and not big and not O.planar(O.norm(*G)): raise Reject('not planar')
    fl = rng.choice([emb.DRAW, emb.DRAW, emb.DRAW, emb.PLANAR]) if not big else emb.DRAW
    p = emb.build(g, rng, G, [emb.DRAW]); tr.append('embedded' if embedded else 'not embedded')
    if embedded:
        if emb.embed(g, p, emb.DRAW) != OK: raise Violation('drawing a planar graph fails')
    if rng.random() < .3: g.call('gp_SortVertices', p); tr.append('sorted')
    z = rng.random() < .5; f = g.field(p, 'internalFlags'); g.setfield(p, ('internalFlags',), f & ~8 | (8 if z else 0))
    d = Drawing(g, p); spec.setmode('conc'); R = d.rep(); M = len(R.ends)
    if embedded:
        b = R.bad()
        if b: raise Violation('the drawing is no visibility representation: ' + b)
        for v in R.V:
            c = [R.E[e][0][0] for e in R.ends if v in R.ends[e]]
            if R.V[v][1:] != ((min(c), max(c)) if c else (0, 0)): raise Violation('the range of vertex %d is not that of its edges' % v)
        for _ in range(rng.randint(0, 3)): reshape(R, rng, tr)
        if R.bad(): raise Reject('reshape')
    else:
        # any positions
        if rng.random() < .8:
            rows = list(range(n)); rng.shuffle(rows); cols = list(range(M)); rng.shuffle(cols)
            for v, r in zip(R.V, rows): R.V[v] = (r, rng.randint(0, max(M, 1) - 1), max(M, 1) - 1)
            for e, c in zip(R.E, cols): a, b = sorted(R.V[v][0] for v in R.ends[e]); R.E[e] = ((c, a, b),) * 2
            for v in R.V:
                c = [R.E[e][0][0] for e in R.ends if v in R.ends[e]]; R.V[v] = (R.V[v][0],) + ((min(c), max(c)) if c else (0, 0))
        tr.append('random positions')
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2])): corrupt(R, rng, tr)
    d.store(R); log({'graph': {'n': n, 'edges': sorted(es)}, 'trace': tr, 'vertices': str(R.V)[:1500], 'edges': str({e: (R.ends[e], x) for e, x in R.E.items()})[:2500]})
    holes = M and rng.random() < .06
    if holes:
        a = list(es)[0]; g.call('gp_DeleteEdge', p, rng.choice(list(R.ends)), 0); tr.append('an edge deleted')
    b = R.bad(); r = g.call('_CheckVisibilityRepresentationIntegrity', d.c)
    if holes:
        if liveview(g, p).holes.size and (r == OK or g.call('gp_DrawPlanar_RenderToString', p, ppvar(g)) == OK): raise Violation('a drawing with free edge locations is accepted')
        return
    if (r == OK) != (b is None): raise Violation('the check accepts: ' + b if b else 'the check refuses a valid representation')
    if d.rep().__dict__ != R.__dict__: raise Violation('the check changes positions')
    if r != OK: return
    q = ppvar(g); failing(g, rng, .1, 2); s = g.call('gp_DrawPlanar_RenderToString', p, q); bad = nofail(g); a = g.peek(q.addr, 'ptr')
    if s != OK:
        if not bad: raise Violation('an accepted drawing is not rendered')
        if a: raise Violation('a text although rendering failed')
        return
    text = ctypes.string_at(a).decode('latin1'); g.lib.cdv_free(a)
    if M:
        x = R.judge(text, 1 if z else 0)
        if x: raise Violation('rendering: ' + x + '\n' + text)
    elif len(text) != 2 * n: raise Violation('rendering without edges')
    if liveview(g, p).M != M or d.rep().__dict__ != R.__dict__: raise Violation('rendering changes the graph')
