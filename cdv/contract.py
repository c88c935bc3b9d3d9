"""Contracts: declaration, verification of a function body against its contract, and use at call sites."""
import time, sys
from .terms import *
from .terms import T
from .exec import *
from .exec import Block, Ptr, NULLP, FuncRef, FuncSym, Undef, UNDEF, State, Exec, LoopAnn, Obl
from .front import CT, RANGE, Unsupported
from . import spec, smt as smt_

class SymMem:
    """view of a symbolic state used by the specification views"""
    sym = True
    def __init__(s, X, st): s.X = X; s.st = st
    def ptr(s, h, path):
        if h.b is None: return NULLP
        p = s.st.rd(h.b, h.path + path, h.i)
        return p
    def get(s, h, path=()):
        if h.b is None: return fresh('undef')
        v = s.st.rd(h.b, h.path + path, h.i)
        if isinstance(v, Undef): return fresh('undef')
        if isinstance(v, T) and v.sort == 'Bool': return asint(v)
        return v
    def at(s, h, path, i):
        i = I(i) if not isinstance(i, T) else asint(i)
        if h.b is None: return fresh('undef')
        v = s.st.rd(h.b, h.path + path, add(h.i, i))
        return v
    def length(s, h): return fresh('undef') if h.b is None or h.b.length is None else sub(h.b.length, h.i)
    def isnull(s, h): return h.null if isinstance(h, Ptr) else s.X.ptreq(h, NULLP)
    def same(s, a, b): return s.X.ptreq(a, b)
    def alive(s, h): return s.st.alive(h.b) if h.b is not None else FALSE
    def ghost(s, h, name, *idx): return s.st.mem[(h.b.id, ('$' + name,))].read(*idx)
    def ghostset(s, h, name, fn, sort='Int'): s.st.set(h.b, ('$' + name,), ALam(lambda *i: fn(*i), sort))
    def funcid(s, h, path):
        v = s.st.rd(h.b, h.path + path, h.i)
        return s.fid(v)
    def fid(s, v):
        if isinstance(v, FuncRef): return I(0) if v.name is None else var('fn:' + v.name)
        if isinstance(v, FuncSym): return v.t
        raise Unsupported('function id')

KINDS = {}   # name -> Kind
class Kind:
    """parameter kind: how to build a fresh symbolic argument and how to look at one"""
    def make(s, X, st, tag, nullable=False): raise NotImplementedError
    def view(s, mem, val): return None
    def blocks(s, mem, val, tag): return {}
class IntKind(Kind):
    def __init__(s, kind='int', sort='Int'): s.kind = kind; s.sort = sort
    def make(s, X, st, tag, nullable=False):
        v = var(tag, s.sort)
        if s.sort == 'Int':
            X.typed[tag] = s.kind
            lo, hi = RANGE[s.kind]; st.assume(le(lo, v)); st.assume(le(v, hi))
        return v
    def cmake(s, g, rng, nm):
        lo, hi = RANGE[s.kind]
        z = rng.random()
        if g.hints and z < .75: v = rng.choice(g.hints) + rng.choice([0, 0, 0, 0, 1, -1])
        elif z < .97: v = rng.randint(-3, 12)
        else: v = rng.choice([lo, hi, hi - 1, lo + 1])
        return max(lo, min(hi, v))
class PIntKind(Kind):
    """pointer to a single int owned by the caller"""
    def __init__(s, kind='int'): s.kind = kind
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, CT(s.kind), single=True)
        return Ptr(b, 0, var(tag + '.null', 'Bool') if nullable else FALSE)
    def view(s, mem, val): return PIntView(mem, val)
    def blocks(s, mem, val, tag): return {tag: val.b} if val.b else {}
    def cmake(s, g, rng, nm):
        from .conc import CP
        return CP(g.alloc(4), CT('int'))
class PIntView:
    def __init__(s, m, h): s.m = m; s.h = h
    @property
    def val(s): return s.m.get(s.h, ())
    @property
    def null(s): return s.m.isnull(s.h)
class OpaqueKind(Kind):
    def cmake(s, g, rng, nm):
        from .conc import CP
        return CP(g.alloc(8), CT('void'))
    def make(s, X, st, tag, nullable=False):
        b = Block(tag, CT('void'), None, 'opaque'); X.blocks[b.id] = b
        return Ptr(b, 0, var(tag + '.null', 'Bool') if nullable else FALSE)
KINDS['int'] = IntKind(); KINDS['char'] = IntKind('char'); KINDS['uint'] = IntKind('uint'); KINDS['ulong'] = IntKind('ulong')
KINDS['bv'] = IntKind('int', 'BV'); KINDS['pint'] = PIntKind(); KINDS['opaque'] = OpaqueKind()

class NS:
    """namespace of views / arguments"""
    def __init__(s, d): s.__dict__.update(d)

class Contract:
    modular = True
    def __init__(c, name, params, requires=None, ensures=None, modifies=(), loops=None, ghost=None, ret=None, prop=None,
                 modular=True, allocfail=True, noleak=False, effect=None, setup=None, defs=None, level=5, nullable=(), uninit=True, mergelimit=6,
                 result_ptr=None, conc=None, entry=None, file=None, models=None, lemmas=None, instances=None, configs=('rel',), gen=None, alias=None, bounded=False, conc_ok=True, weight=1, assume=None, use=None, chain=(), results=None, nochange=()):
        c.results = results; c.nochange = nochange
        c.assume = assume; c.use = use; c.chain = chain
        c.name = name; c.params = params; c.requires = requires or (lambda v, a: []); c.ensures = ensures or (lambda o, n, a, r: [])
        c.modifies = list(modifies); c.loops = loops or {}; c.ghost = ghost; c.ret = ret; c.prop = prop; c.modular = modular
        c.allocfail = allocfail; c.noleak = noleak; c.effect = effect; c.setup = setup; c.defs = defs; c.level = level; c.nullable = nullable
        c.uninit = uninit; c.mergelimit = mergelimit; c.result_ptr = result_ptr; c.conc = conc; c.entry = entry; c.models = models; c.lemmas = lemmas
        c.instances = instances; c.configs = configs; c.gen = gen; c.alias = alias; c.bounded = bounded; c.conc_ok = conc_ok; c.weight = weight
    # ---- helpers ----
    def views(c, X, st, vals, snapshot=False):
        if snapshot: st = st.fork()
        m = SymMem(X, st)
        d = {'mem': m}
        for (nm, kd), v in zip(c.params, vals):
            K = KINDS[kd.rstrip('?')]
            w = K.view(m, v)
            if w is not None: d[nm] = w
        return NS(d)
    def args(c, vals):
        return NS({nm: v for (nm, kd), v in zip(c.params, vals)})
    def blockmap(c, X, st, vals):
        m = SymMem(X, st); d = {}
        for (nm, kd), v in zip(c.params, vals):
            K = KINDS[kd.rstrip('?')]
            if isinstance(v, Ptr) and v.b is None: continue
            d.update(K.blocks(m, v, nm))
        return d
    def pairs(c, xs):
        out = []
        for i, x in enumerate(xs):
            if isinstance(x, tuple): out.append((x[0], B(x[1]() if callable(x[1]) else x[1])))
            else: out.append(('#%d' % (i + 1), B(x() if callable(x) else x)))
        return out
    def pairs2(c, xs):
        for i, x in enumerate(xs):
            if isinstance(x, tuple): yield x[0], (x[1]() if callable(x[1]) else x[1])
            else: yield '#%d' % (i + 1), (x() if callable(x) else x)
    def modmatch(c, tag, path):
        full = tag + ''.join('.%s' % p for p in path) if isinstance(path, tuple) else tag + '.' + str(path)
        for p in c.modifies:
            if full == p or full.startswith(p + '.') or p == '*': return True
        return False
    # ---- verification of the body ----
    def verify_any(c, prog, contracts, level=5, deadline=None):
        X = c.verify(prog, contracts)
        smt_.discharge(X.obls, level, deadline=deadline)
        return X
    def verify(c, prog, contracts, feas=None, ann_override=None, renames=None):
        spec.setmode('sym')
        f = prog.funcs.get(c.alias or c.name)
        if f is None: raise Unsupported('function %s not found' % c.name)
        if f.body is None: raise Unsupported(f.err)
        if len(f.params) != len(c.params): raise Unsupported('signature of %s changed' % c.name)
        X = Exec(prog, contracts if c.use is None else {(contracts[k].alias or k) + f: contracts[k] for k, f in ((u.split('<')[0], '<' + u.split('<')[1] if '<' in u else '') for u in c.use) if k in contracts})
        X.fn = c.name; X.allocfail = c.allocfail; X.feas = feas; X.check_uninit = c.uninit; X.mergelimit = c.mergelimit
        X.renames = renames; X.assumed = []
        if c.models: X.models.update(c.models)
        for k, a in (ann_override or c.loops).items():
            key = k if isinstance(k, tuple) else (k.split(':')[0], int(k.split(':')[1])) if isinstance(k, str) else (c.name, k)
            X.loopann[key] = a if isinstance(a, (LoopAnn, str)) else LoopAnn(*a) if isinstance(a, tuple) else LoopAnn(a)
        st = State(); st.X = X
        vals = []
        for nm, kd in c.params:
            K = KINDS[kd.rstrip('?')]
            vals.append(K.make(X, st, nm, nullable=kd.endswith('?')))
        if c.setup: c.setup(X, st, vals)
        st0 = st.fork()
        o = c.views(X, st0, vals)
        a = c.args(vals)
        X.old = o; X.args = a; X.views_of = lambda s: c.views(X, s, vals)
        X.contract = c
        for lab, g in c.pairs(c.requires(o, a)):
            if not st.assume(g): raise Unsupported('precondition %s is contradictory' % lab)
        for lab, g in c.pairs(c.assume(o, a) if c.assume else []):
            st.assume(g); X.assumed.append(lab)
        if c.lemmas:
            for lab, g in c.pairs(c.lemmas(o, a)):
                X.oblige(st, 'lemma ' + lab, 'lemma', g)
        X.frame = [c.name]
        X.reach(st, 'precondition is satisfiable', None)
        X.depth0 = True
        blocks0 = c.blockmap(X, st0, vals)
        X.bindparams(st, f, vals)
        if c.entry: c.entry(X, st, vals)
        outs = X.run(f.body, st)
        # merge exits with the same constant result
        rets = []
        for q, sig in outs:
            v = sig[1] if sig and sig[0] == 'return' else None
            rets.append((q, v))
        X.npaths = len(rets)
        for q, r in rets:
            if isinstance(r, T) and r.sort == 'Bool': r = asint(r)
            n = c.views(X, q, vals)
            if c.ghost: c.ghost(o, n, a, r)
            for lab, g in c.pairs(c.ensures(o, n, a, r)):
                X.oblige(q, 'postcondition: ' + lab, 'post', g, None, assume=lab in c.chain)
            if c.results: X.oblige(q, 'postcondition: result is one of %s' % (c.results,), 'post', or_(*[eq(r, x) for x in c.results]), None, assume=False)
            # frame
            for tag, b in blocks0.items():
                for (bid, path), v0 in list(st0.mem.items()):
                    if bid != b.id or path == '$alive': continue
                    v1 = q.mem.get((bid, path))
                    if v1 is v0: continue
                    if c.modmatch(tag, path):
                        if c.nochange and not str(path[0] if path else '').startswith('$'):
                            g = implies(or_(*[eq(r, x) for x in c.nochange]), c.sameval(X, b, v0, v1))
                            if g is not TRUE: X.oblige(q, 'frame: %s%s unchanged when the result is in %s' % (tag, ''.join('.%s' % p for p in path), c.nochange), 'frame', g, None, assume=False)
                        continue
                    lab = 'frame: %s%s unchanged' % (tag, ''.join('.%s' % p for p in path))
                    X.oblige(q, lab, 'frame', c.sameval(X, b, v0, v1), None, assume=False)
                if not c.modmatch(tag, ('$alive',)) and q.alive(b) is not TRUE:
                    X.oblige(q, 'frame: %s still allocated' % tag, 'frame', q.alive(b), None, assume=False)
            for b in list(X.blocks.values()):
                if b.kind == 'global':
                    for (bid, path), v1 in q.mem.items():
                        pass
            if c.noleak:
                reach = c.reachable(X, q, vals, r)
                for k in list(q.mem):
                    if k[0] == '$alloc' and k[1] not in reach:
                        X.oblige(q, 'no storage is leaked (%s)' % X.blocks[k[1]].tag, 'leak', nt(q.mem.get((k[1], '$alive'), TRUE)), None, assume=False)
        X.rets = rets
        return X
    def reachable(c, X, st, vals, r):
        seen = set(); stk = [v for v in vals + [r] if isinstance(v, Ptr)]
        while stk:
            p = stk.pop()
            if p.b is None or p.b.id in seen: continue
            if p.null is TRUE: continue
            seen.add(p.b.id)
            for (bid, path), v in st.mem.items():
                if bid == p.b.id and isinstance(v, Ptr): stk.append(v)
        return seen
    def sameval(c, X, b, v0, v1):
        if v1 is None: return FALSE
        if isinstance(v0, Arr):
            ar = getattr(v0, 'arity', 1)
            if isinstance(v0, AFun) and v0.arity == 2: ar = 2
            vs = [bvar('f') for _ in range(ar)]
            body = eq(v0.read(*vs), v1.read(*vs))
            if ar == 1 and b.length is not None: body = implies(and_(le(0, vs[0]), lt(vs[0], b.length)), body)
            return forall(vs, body)
        if isinstance(v0, T): return eq(v0, v1) if isinstance(v1, T) else FALSE
        if isinstance(v0, (Ptr, FuncRef, FuncSym)): return X.ptreq(v0, v1) if isinstance(v1, (Ptr, FuncRef, FuncSym)) else FALSE
        return TRUE
    # ---- use at call sites ----
    def apply(c, X, st, vals, n):
        X.used_contracts[c.name] = X.used_contracts.get(c.name, 0) + 1
        vals = [X.toint(v) if isinstance(v, T) else v for v in vals]
        for (nm, kd), v in zip(c.params, vals):
            if kd == 'bv': pass
        vals = [asbv(v) if kd == 'bv' else (asint(v) if isinstance(v, T) else v) for (nm, kd), v in zip(c.params, vals)]
        if c.effect:
            return c.effect(c, X, st, vals, n)
        o = c.views(X, st, vals, snapshot=True)
        a = c.args(vals)
        for lab, g in c.pairs(c.requires(o, a)):
            if not X.oblige(st, 'precondition of %s: %s' % (c.name, lab), 'pre', g, n): return []
        if c.results:
            out = []
            for i, k in enumerate(c.results):
                q = st.fork() if i + 1 < len(c.results) else st
                out += c.applycase(X, q, vals, o, a, I(k), k not in c.nochange)
            return out
        return c.applycase(X, st, vals, o, a, None, True)
    def applycase(c, X, st, vals, o, a, r, havoc):
        bm = c.blockmap(X, st, vals)
        for tag, b in bm.items() if havoc else ():
            for (bid, path), v in list(st.mem.items()):
                if bid != b.id or path in ('$alive', '$init'): continue
                if not c.modmatch(tag, path): continue
                if isinstance(v, (Ptr, FuncRef, FuncSym)): raise Unsupported('contract %s modifies pointer %s.%s' % (c.name, tag, path))
                st.set(b, path, X.havocval(b, path, v))
        f = X.prog.funcs.get(c.alias or c.name)
        rt = f.ret if f else CT('int')
        if r is not None: pass
        elif rt.kind in RANGE:
            r = fresh('ret_' + c.name); X.typed[r.args[0]] = rt.kind
            lo, hi = RANGE[rt.kind]; st.assume(le(lo, r)); st.assume(le(r, hi))
        elif rt.kind != 'void': raise Unsupported('contract %s returns a pointer' % c.name)
        nn = c.views(X, st, vals)
        if c.ghost and havoc: c.ghost(o, nn, a, r)
        for lab, g in c.pairs(c.ensures(o, nn, a, r)):
            if not st.assume(g): return []
        return [(st, r)]

REG = {}
def contract(name, params, **kw):
    c = Contract(name, params, **kw)
    c.module = sys._getframe(1).f_globals['__name__'].split('.')[-1]
    REG[name] = c
    return c

class Scenario:
    def __init__(s, name, fn, prop, configs): s.name = name; s.fn = fn; s.prop = prop; s.configs = configs
SCEN = {}
def scenario(name, prop, configs=('rel',), short=False):
    """a multi-call history against a reference model, run on the real code (replay search / labelled bounded)"""
    def deco(fn):
        SCEN[name] = Scenario(name, fn, prop, configs); SCEN[name].short = short; SCEN[name].module = fn.__module__.split('.')[-1]; return fn
    return deco
from . import strings, files
