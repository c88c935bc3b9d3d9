"""View of a graph (struct baseGraphStructure) shared by all graph contracts.

A well formed graph *is* a family of sequences: for every vertex and virtual vertex v the list of arcs at(v,0..deg(v)-1).
Symbolically at/deg/pos/own/live/hidx are ghost functions attached to the graph block; concretely they are computed by
walking the links.  wf() ties the ghost sequences to the link/neighbor/first/last fields and to the edge-hole stack."""
from cdv.spec import *
from cdv.contract import *
from cdv.contract import Contract, Kind, KINDS, contract, IntKind
from cdv.front import CT
from cdv import terms as t
from cdv import spec
from .stack import StackView
from .listcoll import LCView
OK, NOTOK, NIL, NONEMB = 1, 0, 0, -1
INTMAX = 2**31 - 1
STRUCT = CT('struct', name='baseGraphStructure')
GHOSTS = (('at', 2), ('deg', 1), ('pos', 1), ('own', 1), ('live', 1), ('hidx', 1), ('uidx', 1), ('uedge', 1), ('spos', 1), ('anc', 2), ('byidx', 1), ('tarc', 1), ('ord', 1), ('fin', 1), ('wla', 1), ('wlp', 1))

class SymLists:
    """adjacency sequences as ghost functions, with functional insert / remove"""
    def __init__(s, at, deg, pos, own, live): s.at = at; s.deg = deg; s.pos = pos; s.own = own; s.live = live
    def insert(s, v, p, e):
        o = s
        return SymLists(lambda w, k: Ite(Ne(w, v), lambda: o.at(w, k), lambda: Ite(Lt(k, p), lambda: o.at(v, k), lambda: Ite(Eq(k, p), e, lambda: o.at(v, k - 1)))),
            lambda w: Ite(Eq(w, v), lambda: o.deg(v) + 1, lambda: o.deg(w)),
            lambda x: Ite(Eq(x, e), p, lambda: Ite(And(Eq(o.own(x), v), Le(p, o.pos(x))), lambda: o.pos(x) + 1, lambda: o.pos(x))),
            lambda x: Ite(Eq(x, e), v, lambda: o.own(x)), lambda x: Or(Eq(x, e), o.live(x)))
    def remove(s, e):
        o = s; v = o.own(e); p = o.pos(e)
        return SymLists(lambda w, k: Ite(And(Eq(w, v), Le(p, k)), lambda: o.at(v, k + 1), lambda: o.at(w, k)),
            lambda w: Ite(Eq(w, v), lambda: o.deg(v) - 1, lambda: o.deg(w)),
            lambda x: Ite(And(Eq(o.own(x), v), Lt(p, o.pos(x))), lambda: o.pos(x) - 1, lambda: o.pos(x)),
            o.own, lambda x: And(Ne(x, e), o.live(x)))
class ConcLists:
    def __init__(s, d): s.d = d; s._ix = None
    def _i(s):
        if s._ix is None:
            s._ix = {}
            for v, l in s.d.items():
                for k, e in enumerate(l): s._ix.setdefault(e, (v, k))
        return s._ix
    def at(s, v, k):
        l = s.d.get(int(v), [])
        return l[k] if 0 <= k < len(l) else -9
    def deg(s, v): return len(s.d.get(int(v), []))
    def pos(s, e): return s._i().get(int(e), (0, -1))[1]
    def own(s, e): return s._i().get(int(e), (0, -1))[0]
    def live(s, e): return int(e) in s._i()
    def insert(s, v, p, e):
        d = dict(s.d); l = list(d.get(v, [])); l.insert(p, int(e)); d[v] = l; return ConcLists(d)
    def remove(s, e):
        v, k = s._i()[int(e)]; d = dict(s.d); l = list(d[v]); del l[k]; d[v] = l; return ConcLists(d)
def lists_equal(n, m, bound, nv):
    """the two families of sequences are the same (vertices below nv, arcs below bound)"""
    return [All(1, nv, lambda v: Eq(n.deg(v), m.deg(v))),
        All2(1, nv, 0, lambda v: m.deg(v), lambda v, k: Eq(n.at(v, k), m.at(v, k)))]

class GV:
    """graph view"""
    def __init__(s, m, h): s.m = m; s.h = h; s._c = {}
    null = property(lambda s: s.m.isnull(s.h))
    def f(s, *p): return s.m.get(s.h, p)
    N = property(lambda s: s.f('N')); NV = property(lambda s: s.f('NV')); M = property(lambda s: s.f('M'))
    cap = property(lambda s: s.f('arcCapacity'))
    iflags = property(lambda s: s.f('internalFlags')); eflags = property(lambda s: s.f('embedFlags'))
    def _p(s, k):
        if s.m.sym: return s.m.ptr(s.h, (k,))
        p = s._c.get(k)
        if p is None: p = s._c[k] = s.m.ptr(s.h, (k,))
        return p
    E = property(lambda s: s._p('E')); V = property(lambda s: s._p('V')); VI = property(lambda s: s._p('VI')); XF = property(lambda s: s._p('extFace'))
    stk = property(lambda s: StackView(s.m, s._p('theStack'))); holes = property(lambda s: StackView(s.m, s._p('edgeHoles')))
    brl = property(lambda s: LCView(s.m, s._p('BicompRootLists'))); sdl = property(lambda s: LCView(s.m, s._p('sortedDFSChildLists')))
    def link(s, e, k): return s.m.at(s.E, ('link', k), e)
    def next(s, e): return s.m.at(s.E, ('link', 0), e)
    def prev(s, e): return s.m.at(s.E, ('link', 1), e)
    def nbr(s, e): return s.m.at(s.E, ('neighbor',), e)
    def ef(s, e): return s.m.at(s.E, ('flags',), e)
    def first(s, v): return s.m.at(s.V, ('link', 0), v)
    def last(s, v): return s.m.at(s.V, ('link', 1), v)
    def vlink(s, v, k): return s.m.at(s.V, ('link', k), v)
    def index(s, v): return s.m.at(s.V, ('index',), v)
    def vf(s, v): return s.m.at(s.V, ('flags',), v)
    def vi(s, v, k): return s.m.at(s.VI, (k,), v)
    def parent(s, v): return s.vi(v, 'parent')
    def ext(s, v, k): return s.m.at(s.XF, ('vertex', k), v)
    @property
    def bound(s): return 2 + 2 * (s.M + s.holes.size)
    @property
    def nv(s): return 1 + 2 * s.N
    def arc(s, e): return And(Le(2, e), Lt(e, s.bound))
    def anyv(s, v): return And(Le(1, v), Le(v, 2 * s.N))
    def prim(s, v): return And(Le(1, v), Le(v, s.N))
    # ---- ghost sequences ----
    @property
    def L(s):
        if spec.MODE == 'sym':
            m, h = s.m, s.h
            return SymLists(lambda v, k: m.ghost(h, 'at', t.I(v), t.I(k)), lambda v: m.ghost(h, 'deg', t.I(v)), lambda x: m.ghost(h, 'pos', t.I(x)), lambda x: m.ghost(h, 'own', t.I(x)),
                lambda x: t.ne(m.ghost(h, 'live', t.I(x)), 0))
        if 'L' not in s._c:
            d = {}; lim = max(0, s.bound)
            for v in range(1, 2 * s.N + 1):
                l = []; e = s.first(v)
                while e != NIL and len(l) <= lim:
                    l.append(int(e)); e = s.next(e)
                d[v] = l
            s._c['L'] = ConcLists(d)
        return s._c['L']
    def setL(s, L):
        """ghost update at an exit (symbolic only): the new sequences"""
        m, h = s.m, s.h
        m.ghostset(h, 'at', lambda v, k: L.at(v, k)); m.ghostset(h, 'deg', lambda v: L.deg(v)); m.ghostset(h, 'pos', lambda x: L.pos(x)); m.ghostset(h, 'own', lambda x: L.own(x))
        m.ghostset(h, 'live', lambda x: t.asint(t.B(L.live(x))))
    def at(s, v, k): return s.L.at(v, k)
    def deg(s, v): return s.L.deg(v)
    def pos(s, e): return s.L.pos(e)
    def own(s, e): return s.L.own(e)
    def live(s, e): return s.L.live(e)
    def hidx(s, e):
        if spec.MODE == 'sym': return s.m.ghost(s.h, 'hidx', t.I(e))
        if 'h' not in s._c: s._c['h'] = {int(s.holes.at(k)) | 1: k for k in range(s.holes.size)}
        return s._c['h'].get(int(e) | 1, -1)
    def uidx(s, e): return s.m.ghost(s.h, 'uidx', t.I(e))
    def uedge(s, k): return s.m.ghost(s.h, 'uedge', t.I(k))
    def used_add(s, o, vp, ok=True):
        """ghost numbering of the edges in use: a new edge gets the next number"""
        m, h = s.m, s.h
        m.ghostset(h, 'uidx', lambda x: Ite(And(ok, Or(Eq(x, vp), Eq(x, Xor1(vp)))), o.M, lambda: o.uidx(x)))
        m.ghostset(h, 'uedge', lambda k: Ite(And(ok, Eq(k, o.M)), vp, lambda: o.uedge(k)))
    def used_del(s, o, e):
        m, h = s.m, s.h; k0 = o.uidx(e); l = o.uedge(o.M - 1)
        m.ghostset(h, 'uidx', lambda x: Ite(Or(Eq(x, l), Eq(x, Xor1(l))), k0, lambda: o.uidx(x)))
        m.ghostset(h, 'uedge', lambda k: Ite(Eq(k, k0), l, lambda: o.uedge(k)))
    # ---- invariants ----
    def shape(s):
        """scalars and array extents"""
        return [('counts in range', And(Lt(0, s.N), Le(12 * s.N + 4, INTMAX), Eq(s.NV, s.N), Le(0, s.cap), Le(2 * s.cap + 4, INTMAX), Eq(Mod(s.cap, 2), 0), Le(0, s.M), Le(2 * (s.M + s.holes.size), s.cap))),
            ('arrays allocated', And(*[Not(s.m.isnull(p)) for p in (s.E, s.V, s.VI, s.XF)])),
            ('array extents', And(Le(1 + 2 * s.N, s.m.length(s.V)), Le(1 + s.N, s.m.length(s.VI)), Le(1 + 2 * s.N, s.m.length(s.XF)), Le(2 + s.cap, s.m.length(s.E)))),
            ('list collections', And(s.brl.wf(), s.sdl.wf(), Eq(s.brl.N, s.N + 1), Eq(s.sdl.N, s.N + 1))),
            ('stacks', And(s.stk.wf(), s.holes.wf(), Le(s.cap, 2 * s.holes.cap), Le(2 * s.cap, s.stk.cap), Le(6 * s.N, s.stk.cap)))]
    def adj(s, L=None):
        """the sequences are the adjacency lists"""
        L = L or s.L
        nx = lambda e: Ite(Lt(L.pos(e) + 1, L.deg(L.own(e))), lambda: L.at(L.own(e), L.pos(e) + 1), NIL)
        pv = lambda e: Ite(Lt(0, L.pos(e)), lambda: L.at(L.own(e), L.pos(e) - 1), NIL)
        c = [('every listed arc is a stored arc of its vertex, at one place only', All2(1, s.nv, 0, lambda v: L.deg(v), lambda v, k: And(L.live(L.at(v, k)), Eq(L.own(L.at(v, k)), v), Eq(L.pos(L.at(v, k)), k)), pat=lambda v, k: [L.at(v, k)])),
            ('live arcs are stored, belong to their twin\'s neighbor, and sit at their place', All(2, s.bound, lambda e: Implies(L.live(e), Eq(L.own(e), s.nbr(Xor1(e))), s.anyv(L.own(e)), s.anyv(s.nbr(e)), Le(0, L.pos(e)), lambda: Lt(L.pos(e), L.deg(L.own(e))),
                lambda: Eq(L.at(L.own(e), L.pos(e)), e)), pat=lambda e: [L.live(e)])),
            ('only arc locations are live', _ALLINT(lambda e: Implies(L.live(e), s.arc(e)), lambda e: [L.live(e)]) if spec.MODE == 'sym' else All(0, 1, lambda _: all(s.arc(x) for x in L._i()))),
            ('next links follow the sequences', All(2, s.bound, lambda e: Implies(L.live(e), lambda: Eq(s.next(e), nx(e))), pat=lambda e: [s.next(e)])),
            ('prev links follow the sequences', All(2, s.bound, lambda e: Implies(L.live(e), lambda: Eq(s.prev(e), pv(e))), pat=lambda e: [s.prev(e)])),
            ('first/last arcs are the ends', All(1, s.nv, lambda v: And(Le(0, L.deg(v)), Eq(s.first(v), Ite(Lt(0, L.deg(v)), lambda: L.at(v, 0), NIL)), lambda: Eq(s.last(v), Ite(Lt(0, L.deg(v)), lambda: L.at(v, L.deg(v) - 1), NIL))),
                pat=lambda v: [s.first(v), ]) ),
            ('degrees are counts', All(1, s.nv, lambda v: And(Le(0, L.deg(v)), Implies(Lt(0, L.deg(v)), lambda: Eq(s.last(v), L.at(v, L.deg(v) - 1))), Implies(Eq(L.deg(v), 0), Eq(s.last(v), NIL))), pat=lambda v: [s.last(v), ])),
            ('degrees are not negative', All(1, s.nv, lambda v: Le(0, L.deg(v)), pat=lambda v: [L.deg(v)]))]
        return c
    def twins(s, L=None):
        L = L or s.L
        return [('both arcs of an edge are listed or neither', All(2, s.bound, lambda e: Iff(L.live(e), L.live(Xor1(e))), pat=lambda e: [L.live(e)]))]
    def store(s):
        """edge storage: holes and unused slots"""
        H = s.holes
        return [('holes are distinct free edge locations', All(0, H.size, lambda k: And(s.arc(H.at(k)), lambda: Eq(s.nbr(H.at(k)), NIL), lambda: Eq(s.nbr(Xor1(H.at(k))), NIL), lambda: Eq(s.hidx(H.at(k)), k), lambda: Eq(s.hidx(Xor1(H.at(k))), k)), pat=lambda k: [H.at(k)])),
            ('every free location below the bound is a hole', All(2, s.bound, lambda e: Implies(Eq(s.nbr(e), NIL), Le(0, s.hidx(e)), Lt(s.hidx(e), H.size), lambda: Or(Eq(H.at(s.hidx(e)), e), Eq(H.at(s.hidx(e)), Xor1(e)))), pat=lambda e: [s.nbr(e)])),
            ('locations beyond the bound are clear', All(s.bound, 2 + s.cap, lambda e: And(Eq(s.nbr(e), NIL), Eq(Bits(s.ef(e), -1), t.bvc(0) if spec.MODE == 'sym' else 0)), pat=lambda e: [s.nbr(e)])),
            ('live arcs are in use', All(2, s.bound, lambda e: Implies(s.live(e), Ne(s.nbr(e), NIL)), pat=lambda e: [s.live(e)])),
            ('M counts the edges in use', All(2, s.bound, lambda e: Implies(Ne(s.nbr(e), NIL), Le(0, s.uidx(e)), Lt(s.uidx(e), s.M), Or(Eq(s.uedge(s.uidx(e)), e), Eq(s.uedge(s.uidx(e)), Xor1(e)))), pat=lambda e: [s.nbr(e)])
                if spec.MODE == 'sym' else (s.M == sum(1 for e in range(2, s.bound, 2) if s.nbr(e) != NIL))),
            ('both halves of an edge are in use or neither', All(2, s.bound, lambda e: Iff(Eq(s.nbr(e), NIL), Eq(s.nbr(Xor1(e)), NIL)), pat=lambda e: [s.nbr(e)])),
            ('hole flags are clear', All(0, H.size, lambda k: And(Eq(Bits(s.ef(H.at(k)), -1), t.bvc(0) if spec.MODE == 'sym' else 0), Eq(Bits(s.ef(Xor1(H.at(k))), -1), t.bvc(0) if spec.MODE == 'sym' else 0)), pat=lambda k: [H.at(k)]))]
    def wf(s): return s.shape() + s.adj() + s.twins() + s.store()
def _ALLINT(fn, pat):
    q = t.bvar('x'); body = t.B(fn(q))
    from cdv.spec import autopat
    return t.forall([q], body, autopat([q], body, pat(q)))

class GraphKind(Kind):
    """an initialised graph with the base function table (no extension overloads)"""
    opts = {}
    def __init__(s, **o): s.opts = o
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, STRUCT, single=True, kind='owned')
        def arr(f, ty, key=None):
            ln = t.var('%s:%s#len' % (tag, f)); st.assume(t.le(0, ln))
            B_ = X.new_block(st, '%s:%s' % (tag, f), ty, ln, kind='owned'); st.mem[(b.id, (f,))] = Ptr(B_, 0)
            return B_
        arr('E', CT('struct', name='edgeRec')); arr('V', CT('struct', name='vertexRec')); arr('VI', CT('struct', name='vertexInfo')); arr('extFace', CT('struct', name='extFaceLinkRec'))
        for f in ('edgeHoles', 'theStack'): st.mem[(b.id, (f,))] = KINDS['stack'].make(X, st, '%s:%s' % (tag, f))
        for f in ('BicompRootLists', 'sortedDFSChildLists'): st.mem[(b.id, (f,))] = KINDS['lc'].make(X, st, '%s:%s' % (tag, f))
        st.mem[(b.id, ('extensions',))] = NULLP
        for nm, ar in GHOSTS: st.mem[(b.id, ('$' + nm,))] = AFun('%s.$%s' % (tag, nm), 'Int', ar)
        p = Ptr(b, 0, t.FALSE)
        fr = X.frame; X.frame = ['setup']; n0 = len(X.obls)
        env = st.env
        X.inline(st, X.prog.funcs['_InitFunctionTable'], [p], None)
        st.env = env
        X.frame = fr; del X.obls[n0:]
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return GV(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        for f in ('E', 'V', 'VI', 'extFace'):
            p = mem.st.mem.get((val.b.id, (f,)))
            if isinstance(p, Ptr) and p.b is not None: d[tag + ':' + f] = p.b
        for f, k in (('edgeHoles', 'stack'), ('theStack', 'stack'), ('BicompRootLists', 'lc'), ('sortedDFSChildLists', 'lc')):
            p = mem.st.mem.get((val.b.id, (f,)))
            if isinstance(p, Ptr) and p.b is not None: d.update(KINDS[k].blocks(mem, p, tag + ':' + f))
        return d
    def cmake(s, g, rng, nm): return rgraph(g, rng, nm, **s.opts)

# ---------------------------------------------------------------- concrete generation (through the library itself)
def GP(addr): 
    from cdv.conc import CP
    return CP(addr, STRUCT)
def newgraph(g, N, arccap=None):
    p = GP(g.call('gp_New'))
    if arccap: g.call('gp_EnsureArcCapacity', p, arccap)
    if g.call('gp_InitGraph', p, N) != OK: raise RuntimeError('gp_InitGraph failed')
    g.owngraphs = getattr(g, 'owngraphs', []) + [p.addr]
    return p
class GFree(int): pass
def liveview(g, p):
    from cdv.conc import CMem
    return GV(CMem(g), p)
def live_arcs(g, p):
    spec.setmode('conc')
    return sorted(liveview(g, p).L._i())
def rgraph(g, rng, nm, simple=False, virtual=True, loops=False, directed=True, holes=True, hidden=False, maxn=7, minn=1, conn=None, stack=True, flags=True, tight=False):
    N = rng.randint(minn, maxn)
    cap = rng.choice([None, None, None, 2, 4, 6, 10, 2 * N, 6 * N, N * (N - 1) or 2])
    p = newgraph(g, N, cap)
    nv = 2 * N if virtual and rng.random() < .4 else N
    tr = []
    edges = set()
    for _ in range(rng.choice([0, 1, 2, N, 2 * N, 3 * N, rng.randint(0, 3 * N)])):
        u = rng.randint(1, nv); v = rng.randint(1, nv)
        if u == v and not (loops and rng.random() < .2): continue
        if simple and (min(u, v), max(u, v)) in edges: continue
        ul, vl = rng.randint(0, 1), rng.randint(0, 1)
        if g.call('gp_AddEdge', p, u, ul, v, vl) == OK:
            edges.add((min(u, v), max(u, v))); tr.append('add %d.%d-%d.%d' % (u, ul, v, vl))
        if holes and rng.random() < .2:
            la = live_arcs(g, p)
            if la:
                e = rng.choice(la); gv = liveview(g, p); a, b = gv.nbr(e), gv.nbr(e ^ 1); edges.discard((min(a, b), max(a, b)))
                g.call('gp_DeleteEdge', p, e, rng.randint(0, 1)); tr.append('del %d' % e)
    if directed and rng.random() < .4:
        E = g.field(p, 'E')
        for e in live_arcs(g, p):
            if e & 1 and rng.random() < .4:
                d = rng.choice([32, 64]); a = E + 16 * e + 12
                g.poke(a, 'uint', g.peek(a, 'uint') | d); a = E + 16 * (e ^ 1) + 12; g.poke(a, 'uint', g.peek(a, 'uint') | (96 ^ d)); tr.append('dir %d %d' % (e, d))
    if flags and rng.random() < .5:
        E = g.field(p, 'E'); V = g.field(p, 'V')
        for e in live_arcs(g, p):
            if rng.random() < .5:
                a = E + 16 * e + 12; g.poke(a, 'uint', g.peek(a, 'uint') | rng.choice([1, 2, 6, 10, 14, 16, 17, 1 << 16]))
        for v in range(1, 2 * N + 1):
            if rng.random() < .5: g.poke(V + 16 * v + 12, 'uint', rng.choice([1, 2, 15, 1 << 20]))
    if stack and rng.random() < .4:
        sp = CP_stack(g, p)
        S = g.field(sp, 'S'); k = rng.randint(0, 4)
        for i in range(k): g.poke(S + 4 * i, 'int', rng.randint(0, 9))
        g.setfield(sp, ('size',), k)
    g.garcs = live_arcs(g, p); g.gN = N; g.gcur = p
    g.hints += g.garcs + list(range(0, 2 * N + 2)) + [g.field(p, 'arcCapacity')]
    g.tofree.append(('graph', p.addr))
    g.trace.append('%s: N=%d arcCapacity=%s; %s' % (nm, N, g.field(p, 'arcCapacity'), ', '.join(tr)))
    return p
def CP_stack(g, p, f='theStack'):
    from cdv.conc import CP
    return CP(g.field(p, f), CT('struct', name='stack'))
KINDS['g'] = GraphKind(); KINDS['gloop'] = GraphKind(loops=True)
KINDS['gsimple'] = GraphKind(simple=True, virtual=False, maxn=8)
class ArcKind(IntKind):
    def cmake(s, g, rng, nm):
        if g.garcs and rng.random() < .93: return rng.choice(g.garcs)
        return super().cmake(g, rng, nm)
class VertKind(IntKind):
    def __init__(s, virt): super().__init__(); s.virt = virt
    def cmake(s, g, rng, nm):
        if rng.random() < .93: return rng.randint(1, g.gN * (2 if s.virt and rng.random() < .4 else 1))
        return super().cmake(g, rng, nm)
class BitKind(IntKind):
    def cmake(s, g, rng, nm): return rng.randint(0, 1) if rng.random() < .95 else super().cmake(g, rng, nm)
class ArcNilKind(ArcKind):
    def cmake(s, g, rng, nm): return 0 if rng.random() < .3 else super().cmake(g, rng, nm)
KINDS['arc'] = ArcKind(); KINDS['arcnil'] = ArcNilKind(); KINDS['vert'] = VertKind(False); KINDS['vvert'] = VertKind(True); KINDS['bit'] = BitKind()
KINDS['freearc'] = ArcKind(); KINDS['gloose'] = KINDS['gloop']
