"""The extension system (C12): reference model of the override chains, on the real code with generated histories (bounded)."""
import ctypes, struct
from .gview import *
from .gview import GV, liveview, newgraph, GP, OK, NOTOK, NIL, NONEMB, scenario, STRUCT
from cdv.conc import CP, Violation, Reject
from cdv.front import CT
from .gio import fresh, failing, nofail, stored
from . import emb, oracle as O
P = 'C12'
CTX = CT('struct', name='graphFunctionTable')
class Ext:
    def __init__(s, ident, ctx, ov): s.ident = ident; s.ctx = ctx; s.ov = ov
class World:
    """graphs, their extension lists (most recent first), and the contexts alive"""
    def __init__(s, g):
        s.g = g; s.n = g.prog.sizeof(CTX) // 8; s.alive = set(); s.freed = []; s.dups = []; s.base = None; s.graphs = []; s.tail = 24
        s.FREE = ctypes.CFUNCTYPE(None, ctypes.c_void_p); s.DUP = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
        s.cf = s.FREE(s.free); s.cd = s.DUP(s.dup); s.bad = None
    def free(s, p):
        if p not in s.alive: s.bad = 'a context is released twice or was never handed over'; return
        s.alive.discard(p); s.freed.append(p); s.g.lib.cdv_free(p)
    def dup(s, p, gr):
        q = s.g.lib.cdv_malloc(s.n * 8 + s.tail + 8)
        if not q: return 0
        if p not in s.alive: s.bad = 'a released context is duplicated'; s.g.lib.cdv_free(q); return 0
        ctypes.memmove(q, p, s.n * 8 + s.tail + 8); s.alive.add(q); s.dups.append((p, q, gr)); return q
    def ctx(s, ov):
        q = s.g.lib.cdv_malloc(s.n * 8 + s.tail + 8); ctypes.memset(q, 0, s.n * 8 + s.tail + 8); s.alive.add(q)
        for k, v in ov.items(): s.g.poke(q + s.tail + 8 * k, 'ptr', v)
        return q
    def table(s, a): return list(struct.unpack('<%dQ' % s.n, ctypes.string_at(a, 8 * s.n)))
    def gtable(s, p): return s.table(p.addr + s.g.leaf(p.ty, ('functions',))[0]) if False else s.table(p.addr + s.g.prog.offset('baseGraphStructure', 'functions')[0])
    def check(s):
        if s.bad: raise Violation(s.bad)
        want = set()
        for p, exts in s.graphs:
            t = s.gtable(p)
            for k in range(s.n):
                chain = [e.ov[k] for e in exts if k in e.ov] + [s.base[k]]
                if t[k] != chain[0]: raise Violation('operation %d of the graph is not the one of the most recently attached provider' % k)
                i = 1
                for e in exts:
                    x = s.g.peek(e.ctx + s.tail + 8 * k, 'ptr')
                    if k in e.ov:
                        if x != chain[i]: raise Violation('operation %d: the base behaviour an extension sees is not the next provider\'s' % k)
                        i += 1
                    elif x: raise Violation('operation %d: an extension that does not supply it gets an entry' % k)
            for e in exts:
                want.add(e.ctx); q = emb_pp(s.g)
                if s.g.call('gp_FindExtension', p, e.ident, CP(q, None)) != 1 or s.g.peek(q, 'ptr') != e.ctx: raise Violation('an attached extension is not found under its identifier')
                if s.g.call('gp_GetExtension', p, e.ident) != e.ctx: raise Violation('gp_GetExtension does not deliver the context')
        if s.alive != want: raise Violation('contexts: %d not released, %d released but still attached' % (len(s.alive - want), len(want - s.alive)))
def emb_pp(g): return g.alloc(8)
@scenario('ext_model', P)
def ext_model(g, rng, log):
    w = World(g); N = rng.randint(1, 4); tr = []; ids = [g.alloc(4) for _ in range(5)]
    for i in ids: g.poke(i, 'int', 0)
    g.pins = getattr(g, 'pins', [])[-50:] + [w]
    p = newgraph(g, N); g.tofree.append(('graph', p.addr)); w.base = w.gtable(p); w.graphs.append((p, [])); cnt = [0]
    log({'trace': tr})
    def fake(): cnt[0] += 1; return 0x1000 + 16 * cnt[0]
    for _ in range(rng.randint(1, 14)):
        gi = rng.randrange(len(w.graphs)); p, exts = w.graphs[gi]; op = rng.choice(['add', 'add', 'add', 'remove', 'remove', 'find', 'copy', 'dup', 'freeall', 'bad'])
        tr.append((op, gi)); log({'trace': tr})
        if op == 'add':
            iv = rng.choice(ids); ov = {k: fake() for k in range(w.n) if rng.random() < rng.choice([.1, .5, 1])}
            c = w.ctx(ov); iid = g.peek(iv, 'int'); have = iid and any(e.ident == iid for e in exts); tr[-1] += (ids.index(iv), sorted(ov))
            f = failing(g, rng, .2, 2)
            r = g.call('gp_AddExtension', p, CP(iv, None), CP(c, None), CP(ctypes.cast(w.cd, ctypes.c_void_p).value, None), CP(ctypes.cast(w.cf, ctypes.c_void_p).value, None), CP(c + w.tail, None)); bad = nofail(g)
            if r == OK:
                if have: raise Violation('an extension is attached twice')
                ni = g.peek(iv, 'int')
                if ni == 0 or iid and ni != iid: raise Violation('identifier')
                if not iid and ni in [g.peek(j, 'int') for j in ids if j != iv]: raise Violation('two extensions share an identifier')
                exts.insert(0, Ext(ni, c, ov))
            else:
                if not have and not bad: raise Violation('attaching fails')
                if {k: g.peek(c + w.tail + 8 * k, 'ptr') for k in ov} != ov: raise Violation('a refused extension is changed')
                w.alive.discard(c); g.lib.cdv_free(c)
        elif op == 'remove':
            iid = rng.choice([e.ident for e in exts] * 2 + [g.peek(rng.choice(ids), 'int'), 99999]); n0 = len(w.freed); tr[-1] += (iid,)
            r = g.call('gp_RemoveExtension', p, iid); e = [e for e in exts if e.ident == iid]
            if (r == OK) != (iid != 0): raise Violation('removing extension %d returns %d' % (iid, r))
            if e:
                exts.remove(e[0])
                if w.freed[n0:] != [e[0].ctx]: raise Violation('the removed context is not released')
        elif op == 'find':
            iid = rng.choice([g.peek(rng.choice(ids), 'int'), 99999, 0, -1]); q = emb_pp(g); g.poke(q, 'ptr', 1)
            r = g.call('gp_FindExtension', p, iid, CP(q, None)); e = [e.ctx for e in exts if e.ident == iid]
            if (r, g.peek(q, 'ptr')) != ((1, e[0]) if e else (0, 0)): raise Violation('finding extension %d' % iid)
            if g.call('gp_GetExtension', p, iid) != (e[0] if e else None): raise Violation('getting extension %d' % iid)
        elif op == 'freeall': g.call('gp_FreeExtensions', p); exts.clear()
        elif op in ('copy', 'dup'):
            w.dups = []; failing(g, rng, .3, 3 if op == 'copy' else 14)
            if op == 'dup':
                a = g.call('gp_DupGraph', p); bad = nofail(g)
                if not a:
                    if not bad: raise Violation('duplicating fails')
                    w.check(); continue
                q = GP(a); g.tofree.append(('graph', a)); w.graphs.append((q, [])); qe = w.graphs[-1][1]
            else:
                j = rng.randrange(len(w.graphs)); q, qe = w.graphs[j]; tr[-1] += (j,)
                if j == gi: nofail(g); continue
                r = g.call('gp_CopyGraph', q, p); bad = nofail(g)
                if r != OK:
                    if not bad: raise Violation('copying fails')
                    qe.clear(); w.check(); continue
            qe[:] = [Ext(e.ident, next((d for s_, d, gr in w.dups if s_ == e.ctx and gr == q.addr), 0), dict(e.ov)) for e in exts]
            if any(e.ctx == 0 for e in qe): raise Violation('a context is not duplicated for the copy')
        else:
            a = [p, CP(ids[0], None), CP(1 << 20, None), CP(1, None), CP(1, None), CP(1, None)]; a[rng.randrange(6)] = CP(0, None)
            if g.call('gp_AddExtension', *a) == OK: raise Violation('a NULL argument is accepted')
            if g.call('gp_CopyExtensions', CP(0, None), p) == OK or g.call('gp_RemoveExtension', CP(0, None), 1) == OK or g.call('gp_FindExtension', CP(0, None), 1, CP(0, None)): raise Violation('a NULL argument is accepted')
        w.check()
    for p, exts in w.graphs:
        q = g.alloc(8); g.poke(q, 'ptr', p.addr); g.call('gp_Free', CP(q, None))
        if g.peek(q, 'ptr'): raise Violation('handle not cleared')
        if w.bad: raise Violation(w.bad)
    if w.alive: raise Violation('a context is not released with its graph')
DET = {emb.DRAW: 'gp_DetachDrawPlanar', emb.K23: 'gp_DetachK23Search', emb.K4: 'gp_DetachK4Search', emb.K33: 'gp_DetachK33Search'}
@scenario('ext_real', (P, 'C17', 'C15'))
def ext_real(g, rng, log):
    """the library's own extensions: attach, detach, copy, initialise, reuse and run in any order, allocations failing"""
    live = g.counter('cdv_live').value; tr = []; log({'trace': tr}); G = []
    fails = rng.random() < .5
    def fail():
        if fails: failing(g, rng, .3, 14)
    def new():
        fail(); a = g.call('gp_New'); b = nofail(g)
        if not a:
            if not b: raise Violation('gp_New fails')
            return
        G.append([GP(a), 0, None, []])          # graph, order, edges, extensions (most recent first)
    def drop(i):
        q = g.alloc(8); g.poke(q, 'ptr', G[i][0].addr); g.call('gp_Free', CP(q, None)); del G[i]
    cid = {f: ctypes.c_int.in_dll(g.lib, n) for f, n in ((emb.DRAW, 'DRAWPLANAR_ID'), (emb.K23, 'K23SEARCH_ID'), (emb.K4, 'K4SEARCH_ID'), (emb.K33, 'K33SEARCH_ID'))}
    new(); dirty = set()
    for _ in range(rng.randint(3, 14)):
        if not G: new(); continue
        i = rng.randrange(len(G)); p, n, es, ex = x = G[i]; op = rng.choice(['attach', 'attach', 'attach', 'detach', 'init', 'init', 'reinit', 'fill', 'fill', 'embed', 'embed', 'dup', 'copy', 'new', 'free', 'cap'])
        tr.append((op, i)); log({'trace': tr}); bad = 0; r = OK
        if op == 'attach':
            f = rng.choice(list(emb.ATTACH)); tr[-1] += (emb.NAME[f],)
            fail(); r = g.call(emb.ATTACH[f], p); bad = nofail(g)
            if r == OK:
                if f not in ex: ex.insert(0, f)
            elif f in ex: raise Violation('attaching an attached extension fails')
        elif op == 'detach':
            f = rng.choice(list(emb.ATTACH)); tr[-1] += (emb.NAME[f],); r = g.call(DET[f], p)
            if f in ex: ex.remove(f)
            elif cid[f].value == 0: r = OK
        elif op == 'init':
            m = rng.choice([1, 2, 5, 8, 0, -1]); fail(); r = g.call('gp_InitGraph', p, m); bad = nofail(g); tr[-1] += (m,)
            if n or m <= 0:
                if r == OK: raise Violation('initialising is not refused')
                r = OK
            elif r == OK: x[1] = m; x[2] = set()
            else:
                if g.field(p, 'N') != 0: raise Violation('a failed initialisation leaves order %d' % g.field(p, 'N'))
                ex.clear()
        elif op == 'reinit' and n: g.call('gp_ReinitializeGraph', p); x[2] = set()
        elif op == 'fill' and n and not es:
            H = emb.relabel(emb.addrand((n, set()), rng, rng.randint(0, 3 * n)), rng)[1]
            if 2 * len(H) <= g.field(p, 'arcCapacity'):
                g.call('gp_ReinitializeGraph', p); emb.fill(g, rng, p, n, sorted(H), False); x[2] = set(H)
        elif op == 'embed' and n and es is not None:
            f = rng.choice([emb.PLANAR, emb.OUTER] + ex); H = set(es); tr[-1] += (emb.NAME[f], sorted(H)); log({'trace': tr})
            fl = fails and rng.random() < .3
            if fl:
                failing(g, rng, 1, 8); q = emb.embed(g, p, f); bad = nofail(g)
                if bad and q in (OK, NONEMB): pass
                elif q not in (OK, NONEMB) and not bad: raise Violation('%s: result %d' % (emb.NAME[f], q))
            else: emb.one(g, rng, p, (n, H), f, True, log)
            g.call('gp_ReinitializeGraph', p); x[2] = set()
        elif op == 'dup' and n:
            fail(); a = g.call('gp_DupGraph', p); bad = nofail(g); r = OK if a else NOTOK
            if a: G.append([GP(a), n, set(es), list(ex)])
        elif op == 'copy' and n:
            j = rng.choice([j for j in range(len(G)) if j != i] or [i]); q, m, fs, fx = G[j]; tr[-1] += (j,)
            if i == j: continue
            grow = m and g.field(q, 'arcCapacity') < g.field(p, 'arcCapacity') and any(f != emb.K23 for f in fx)
            fail(); r = g.call('gp_CopyGraph', q, p); bad = nofail(g)
            if m != n or grow:
                if r == OK: raise Violation('copying between different orders succeeds')
                r = OK
            elif r == OK: G[j][2] = set(es); G[j][3] = list(ex)
            else: drop(j)
        elif op == 'new' and len(G) < 3: new()
        elif op == 'free': drop(i)
        elif op == 'cap' and n: g.call('gp_EnsureArcCapacity', p, rng.choice([2, 30, 60, 100]))
        if r != OK and not bad: raise Violation('%s fails' % op)
        spec.setmode('conc')
        for p, n, es, ex in G:
            for f in emb.ATTACH:
                if cid[f].value and bool(g.call('gp_FindExtension', p, cid[f].value, CP(0, None))) != (f in ex): raise Violation('%s extension %s' % (emb.NAME[f], 'is not attached' if f in ex else 'is attached'))
            if n:
                stored(g, p); gv = liveview(g, p)
                if {(min(v, w), max(v, w)) for v in range(1, n + 1) for w in [int(gv.nbr(e)) for e in gv.L.d[v]]} != es: raise Violation('edges of a graph changed')
    while G: drop(0)
    for t in list(g.tofree):
        if isinstance(t, tuple): 
            g.tofree.remove(t)
            if g.owned(t[1]): q = g.alloc(8); g.poke(q, 'ptr', t[1]); g.call('gp_Free', CP(q, None))
    own = sum(1 for t in g.tofree if not isinstance(t, tuple))
    d = g.counter('cdv_live').value - live - own
    if d: raise Violation('%d blocks are left when all graphs are released' % d)
