"""Symbolic execution of the real C functions and generation of proof obligations."""
import itertools, math
from .terms import *
from .terms import T
from . import front
from .front import CT, RANGE, Unsupported

INT = CT('int')
BVF = {('edgeRec', 'flags'), ('vertexRec', 'flags'), ('baseGraphStructure', 'internalFlags'), ('baseGraphStructure', 'embedFlags'),
       ('isolatorContext', 'minorType')}
_bid = itertools.count(1)

class Block:
    def __init__(s, tag, elem, length=None, kind='param', single=False):
        s.id = next(_bid); s.tag = tag; s.elem = elem; s.kind = kind; s.single = single
        s.length = I(1) if single else (I(length) if length is not None else None)
        s.size = None            # byte size term of an untyped heap block
        s.text = None
        s.ghosts = {}
    def __repr__(s): return '<%s#%d>' % (s.tag, s.id)

class Ptr:
    __slots__ = ('b', 'i', 'null', 'path')
    def __init__(s, b, i=0, null=FALSE, path=()): s.b = b; s.i = I(i); s.null = B(null); s.path = path
    def __repr__(s): return 'Ptr(%r,%r,%r,%r)' % (s.b, s.i, s.null, s.path)
    def same(s, o): return isinstance(o, Ptr) and s.b is o.b and s.i is o.i and s.null is o.null and s.path == o.path
NULLP = Ptr(None, 0, TRUE)
class FuncRef:
    __slots__ = ('name', 'null')
    def __init__(s, name): s.name = name
    def __repr__(s): return '&' + str(s.name)
class FuncSym:
    """an arbitrary function value: its identity is an Int term (0 = NULL)"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
class Agg:
    def __init__(s, ty, vals): s.ty = ty; s.vals = vals
class Undef: pass
UNDEF = Undef()

class LV:
    __slots__ = ('b', 'i', 'path', 'ty')
    def __init__(s, b, i, path, ty): s.b = b; s.i = i; s.path = path; s.ty = ty

class Obl:
    __slots__ = ('label', 'kind', 'where', 'hyps', 'goal', 'status', 'by', 'time', 'fn', 'st')
    def __init__(s, label, kind, where, hyps, goal, fn): s.label = label; s.kind = kind; s.where = where; s.hyps = hyps; s.goal = goal; s.fn = fn; s.status = None; s.by = None; s.time = 0

class State:
    __slots__ = ('mem', 'env', 'pc', 'known', 'depth', 'X')
    def __init__(s): s.mem = {}; s.env = {}; s.pc = None; s.known = set(); s.depth = 0
    def fork(s):
        n = State(); n.mem = dict(s.mem); n.env = s.env; n.pc = s.pc; n.known = set(s.known); n.depth = s.depth; n.X = s.X
        return n
    def pcs(s):
        r = []; p = s.pc
        while p is not None: r.append(p[1]); p = p[0]
        r.reverse()
        return r
    def assume(s, c):
        """returns False if syntactically contradictory"""
        c = B(c)
        if c is TRUE or c.id in s.known: return True
        if c is FALSE or nt(c).id in s.known: return False
        if c.op == 'and':
            for x in c.args:
                if not s.assume(x): return False
            return True
        s.known.add(c.id)
        s.pc = (s.pc, c)
        return True
    # --- memory ---
    def get(s, b, path): return s.mem[(b.id, path)]
    def set(s, b, path, v):
        s.X.written.add((b, path)) if s.X.written is not None else None
        s.mem[(b.id, path)] = v
    def has(s, b, path): return (b.id, path) in s.mem
    def rd(s, b, path, i=None):
        v = s.mem[(b.id, path)]
        if isinstance(v, Arr): return v.read(I(i) if i is not None else I(0))
        return v
    def alive(s, b): return s.mem.get((b.id, '$alive'), TRUE)

def is_struct(t): return t.kind == 'struct'

class Exec:
    def __init__(s, prog, contracts=None):
        s.prog = prog; s.contracts = contracts or {}
        s.obls = []; s.written = None; s.dry = 0
        s.typed = {}           # symbol name -> C type kind
        s.blocks = {}
        s.fn = None; s.warn = set(); s.used_contracts = {}; s.inlined = set(); s.externs = set()
        s.mergelimit = 6
        s.models = dict(MODELS)
        s.loopann = {}; s.loopseen = []; s.frame = []
        s.feas = None; s.pows = {}
        s.allocfail = True
        s.npaths = 0
        s.globals = {}
        s.check_uninit = True
    # ---------- blocks ----------
    def leafsort(s, owner, path, lt):
        sn = owner.name if owner and owner.kind == 'struct' else None
        names = [p for p in path if isinstance(p, str)]
        if names and names[-1] in ('flags', 'internalFlags', 'embedFlags', 'minorType'):
            for a, f in BVF:
                if f == names[-1] and (sn == a or f in ('minorType',)): return 'BV'
        return 'Int'
    def fresh_leaf(s, name, owner, path, lt, single, undef=False):
        srt = s.leafsort(owner, path, lt)
        nm = fresh_name(name + ''.join('.%s' % p for p in path))
        if lt.kind in RANGE:
            if srt == 'Int': s.typed[nm] = lt.kind
            return var(nm, srt) if single else AFun(nm, srt)
        if lt.kind == 'ptr':
            if single:
                if lt.to.kind == 'func': return FuncSym(var(nm))
                return UNDEF
            return AFun(nm, 'Int')
        if lt.kind in ('double', 'float'):
            return UNDEF if single else AFun(nm, 'Int')
        return UNDEF
    def new_block(s, st, tag, elem, length=None, kind='param', single=False, undef=False, init=None):
        b = Block(tag, elem, length, kind, single)
        s.blocks[b.id] = b
        for path, lt in s.prog.leaves(elem):
            if lt.kind == 'array':
                raise Unsupported('big array member %r' % (path,))
            if init == 'zero':
                if lt.kind in RANGE:
                    z = bvc(0) if s.leafsort(elem, path, lt) == 'BV' else I(0)
                    v = z if single else AConst(z)
                elif lt.kind == 'ptr' and lt.to.kind == 'func': v = FuncRef(None) if single else AConst(I(0))
                elif lt.kind == 'ptr': v = NULLP if single else AConst(I(0))
                else: v = UNDEF
            elif undef and single: v = UNDEF
            else: v = s.fresh_leaf(tag, elem, path, lt, single)
            st.mem[(b.id, path)] = v
        return b
    # ---------- obligations ----------
    def oblige(s, st, label, kind, goal, node=None, assume=True):
        goal = B(goal)
        if s.dry: return st.assume(goal) if assume else True
        w = '%s:%s' % (s.frame[-1] if s.frame else '?', node.line if node is not None else '-')
        trivially = goal is TRUE or goal.id in st.known
        o = Obl(label, kind, w, st.pc, goal, s.fn)
        if trivially: o.status = 'proved'; o.by = 'simplifier'
        s.obls.append(o)
        if assume: return st.assume(goal)
        return True
    def rangehyps(s, t):
        """type-range facts for symbols occurring in t"""
        out = []; seen = set(); stk = [t]
        while stk:
            x = stk.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in ('var', 'app') and x.sort == 'Int' and not fv(x):
                k = s.typed.get(x.args[0])
                if k:
                    lo, hi = RANGE[k]; out += [le(lo, x), le(x, hi)]
            stk.extend(children(x))
        return out
    def fits(s, st, t, kind, node, what='overflow'):
        lo, hi = RANGE[kind]
        if t.op == 'int' and lo <= t.args[0] <= hi: return True
        if t.op in ('var', 'app') and s.typed.get(t.args[0]) == kind: return True
        for h in s.rangehyps(t): st.assume(h)
        return s.oblige(st, 'value fits %s' % kind, what, and_(le(lo, t), le(t, hi)), node)
    # ---------- conversion ----------
    def toint(s, v):
        if isinstance(v, T):
            return v if v.sort in ('Int', 'BV') else asint(v)
        if isinstance(v, Undef): return fresh('undef')
        raise Unsupported('pointer used as integer')
    def num(s, v):
        v = s.toint(v)
        return asint(v)
    def tobool(s, v):
        if isinstance(v, Ptr): return nt(v.null)
        if isinstance(v, FuncRef): return B(v.name is not None)
        if isinstance(v, FuncSym): return ne(v.t, 0)
        if isinstance(v, Undef): return fresh('undef', 'Bool')
        if v.sort == 'Bool': return v
        return ne(v, 0)
    # ---------- expressions ----------
    def ev(s, n, st):
        return getattr(s, 'e_' + n.k)(n, st)
    def e_unsupported(s, n, st): raise Unsupported(n.v)
    def e_int(s, n, st): return [(st, I(n.v))]
    def e_float(s, n, st): return [(st, UNDEF)]
    def e_zero(s, n, st): return [(st, NULLP if n.ty.kind == 'ptr' else I(0))]
    def e_sizeof(s, n, st): return [(st, I(s.prog.sizeof(n.v)))]
    def e_func(s, n, st): return [(st, FuncRef(n.v))]
    def e_str(s, n, st):
        return [(st, Ptr(s.string(st, n.v), 0))]
    strings = None
    def string(s, st, text):
        if s.strings is None: s.strings = {}
        if text in s.strings:
            b = s.strings[text]
        else:
            b = Block('str:' + text, CT('char'), len(text) + 1, 'string'); b.text = text
            s.blocks[b.id] = b; s.strings[text] = b
        if (b.id, ()) not in st.mem:
            def rd(i, text=text):
                if i.op == 'int': return I(ord(text[i.args[0]]) if 0 <= i.args[0] < len(text) else 0)
                r = I(0)
                for k, c in enumerate(text): r = ite(eq(i, k), I(ord(c)), r)
                return r
            st.mem[(b.id, ())] = ALam(rd)
        return b
    def e_load(s, n, st):
        out = []
        for st, lv in s.lval(n.kids[0], st):
            out.append((st, s.load(st, lv, n)))
        return out
    def load(s, st, lv, n):
        if lv.ty.kind == 'struct':
            return Agg(lv.ty, {p: s.load(st, LV(lv.b, lv.i, lv.path + p, lt), n) for p, lt in s.prog.leaves(lv.ty)})
        if lv.ty.kind == 'array': raise Unsupported('array load')
        sp = [k for k, x in enumerate(lv.path) if isinstance(x, T)]
        if sp:
            k = sp[0]; ix = lv.path[k]
            n_el = s.symidx(lv, k)
            r = None
            for j in reversed(range(n_el)):
                v = s.load(st, LV(lv.b, lv.i, lv.path[:k] + (j,) + lv.path[k + 1:], lv.ty), n)
                r = v if r is None else ite(eq(ix, j), v, r)
            return r
        key = (lv.b.id, lv.path)
        if key not in st.mem: raise Unsupported('no field %r in %r' % (lv.path, lv.b))
        v = st.mem[key]
        if isinstance(v, Arr): v = v.read(lv.i if lv.i is not None else I(0))
        if isinstance(v, Undef):
            if s.check_uninit: s.oblige(st, 'value is initialised', 'uninit', FALSE, n, assume=False)
            if lv.ty.kind in RANGE:
                x = fresh('uninit'); s.typed[x.args[0]] = lv.ty.kind; v = x
                if s.leafsort(lv.b.elem, lv.path, lv.ty) == 'BV': v = fresh('uninit', 'BV')
            elif lv.ty.kind == 'ptr': raise Unsupported('uninitialised pointer')
            st.mem[key] = v
        elif lv.ty.kind == 'ptr' and isinstance(v, T):
            raise Unsupported('array of pointers')
        return v
    def symidx(s, lv, k):
        n = 0
        while (lv.b.id, lv.path[:k] + (n,) + lv.path[k + 1:]) in s._cur.mem: n += 1
        return n
    _cur = None
    # lvalues
    def lval(s, n, st):
        s._cur = st
        k = n.k
        if k == 'var':
            b = st.env.get(n.x)
            if b is None: b = s.globalvar(st, n.v)
            return [(st, LV(b, None if b.single else I(0), (), n.ty))]
        if k == 'member':
            if n.x:
                out = []
                for st, p in s.ev(n.kids[0], st):
                    st = s.deref(st, p, n)
                    if st is None: continue
                    out.append((st, LV(p.b, p.i, p.path + (n.v,), n.ty)))
                return out
            return [(st, LV(l.b, l.i, l.path + (n.v,), n.ty)) for st, l in s.lval(n.kids[0], st)]
        if k == 'index':
            out = []
            base, ix = n.kids
            # array member of a struct or a local array (ArrayToPointerDecay)
            if base.k == 'cast' and base.v == 'ArrayToPointerDecay' and base.kids[0].k != 'str':
                for st, l in s.lval(base.kids[0], st):
                    for st, i in s.ev(ix, st):
                        i = s.num(i)
                        if l.path or (l.b.single and not l.path):
                            m = base.kids[0].ty.n
                            if i.op == 'int':
                                if not 0 <= i.args[0] < m:
                                    s.oblige(st, 'index within member array', 'bounds', FALSE, n); continue
                                out.append((st, LV(l.b, l.i, l.path + (i.args[0],), n.ty)))
                            else:
                                if not s.oblige(st, 'index within member array', 'bounds', and_(le(0, i), lt(i, m)), n): continue
                                out.append((st, LV(l.b, l.i, l.path + (i,), n.ty)))
                        else:
                            p = Ptr(l.b, add(l.i if l.i is not None else I(0), i))
                            st = s.deref(st, p, n)
                            if st is None: continue
                            out.append((st, LV(p.b, p.i, (), n.ty)))
                return out
            for st, p in s.ev(base, st):
                for st, i in s.ev(ix, st):
                    if isinstance(p, T) and isinstance(i, Ptr): p, i = i, p
                    q = s.padd(p, s.num(i))
                    st2 = s.deref(st, q, n)
                    if st2 is None: continue
                    out.append((st2, LV(q.b, q.i, q.path, n.ty)))
            return out
        if k == 'un' and n.v == '*':
            out = []
            for st, p in s.ev(n.kids[0], st):
                st = s.deref(st, p, n)
                if st is None: continue
                out.append((st, LV(p.b, p.i, p.path, n.ty)))
            return out
        if k == 'cast' and n.v in ('NoOp', 'BitCast', 'LValueBitCast'): return s.lval(n.kids[0], st)
        if k == 'str': return [(st, LV(s.string(st, n.v), I(0), (), n.ty))]
        if k == 'cond':
            out = []
            for st, c in s.ev(n.kids[0], st):
                for st2, v in s.branch(st, s.tobool(c)):
                    out += s.lval(n.kids[1] if v else n.kids[2], st2)
            return out
        if k in ('call', 'bin', 'cassign'):
            out = []
            for st, v in s.ev(n, st):
                if isinstance(v, Agg):
                    b = s.new_block(st, 'tmp', v.ty, single=True, kind='local', undef=True)
                    s.store(st, LV(b, None, (), v.ty), v, n)
                    out.append((st, LV(b, None, (), v.ty)))
                else: raise Unsupported('lvalue of ' + k)
            return out
        raise Unsupported('lvalue ' + k)
    def padd(s, p, i):
        if not isinstance(p, Ptr): raise Unsupported('pointer arithmetic on %r' % (p,))
        if p.path and isinstance(p.path[-1], int):
            if i.op == 'int': return Ptr(p.b, p.i, p.null, p.path[:-1] + (p.path[-1] + i.args[0],))
            return Ptr(p.b, p.i, p.null, p.path[:-1] + (add(i, p.path[-1]),))
        return Ptr(p.b, add(p.i, i), p.null, p.path)
    def deref(s, st, p, n):
        if not isinstance(p, Ptr):
            if isinstance(p, Undef):
                s.oblige(st, 'pointer is valid', 'null', FALSE, n, assume=False); return None
            raise Unsupported('deref of %r' % (p,))
        if p.b is None:
            s.oblige(st, 'pointer is not NULL', 'null', FALSE, n, assume=False); return None
        if p.null is not FALSE:
            if not s.oblige(st, 'pointer is not NULL', 'null', nt(p.null), n): return None
        a = st.alive(p.b)
        if a is not TRUE:
            if not s.oblige(st, 'storage is allocated', 'alive', a, n): return None
        if p.b.length is None: raise Unsupported('deref of untyped block %r' % p.b)
        if p.path: return st
        if p.b.single or p.b.length is not None:
            g = and_(le(0, p.i), lt(p.i, p.b.length))
            if g is FALSE:
                s.oblige(st, 'index within array %s' % p.b.tag, 'bounds', FALSE, n, assume=False); return None
            if g is not TRUE:
                if not s.oblige(st, 'index within array %s' % p.b.tag, 'bounds', g, n): return None
        return st
    def globalvar(s, st, name):
        b = s.globals.get(name)
        if b is None:
            g = s.prog.globals.get(name)
            if g is None: raise Unsupported('global ' + name)
            t = g['ty']
            if t.kind == 'array':
                b = Block('global:' + name, t.to, t.n, 'global'); s.blocks[b.id] = b
            else: b = Block('global:' + name, t, None, 'global', True); s.blocks[b.id] = b
            s.globals[name] = b
        if (b.id, '$init') not in st.mem:
            st.mem[(b.id, '$init')] = TRUE
            for path, lt in s.prog.leaves(b.elem):
                if (b.id, path) in st.mem: continue
                if lt.kind == 'ptr':
                    fb = Block('opaque:' + name, CT('void'), None, 'opaque'); s.blocks[fb.id] = fb
                    v = Ptr(fb, 0, var('null:' + name, 'Bool') if name not in ('stdin', 'stdout', 'stderr') else FALSE)
                else:
                    nm = 'global:%s%s' % (name, path)
                    srt = 'Int'
                    s.typed[nm] = lt.kind
                    v = var(nm, srt) if b.single else AFun(nm, srt)
                st.mem[(b.id, path)] = v
        return b
    def e_var(s, n, st):   # rvalue use without load cannot happen except for arrays
        return s.ev_addr(n, st)
    def ev_addr(s, n, st):
        out = []
        for st, l in s.lval(n, st):
            out.append((st, Ptr(l.b, l.i if l.i is not None else I(0), FALSE, l.path)))
        return out
    def e_cast(s, n, st):
        k = n.v; c = n.kids[0]
        if k == 'ArrayToPointerDecay':
            if c.k == 'str': return s.ev(c, st)
            out = []
            for st, l in s.lval(c, st):
                if l.path or l.b.single: out.append((st, Ptr(l.b, l.i if l.i is not None else I(0), FALSE, l.path + (0,))))
                else: out.append((st, Ptr(l.b, l.i if l.i is not None else I(0), FALSE, ())))
            return out
        if k == 'NullToPointer':
            return [(st, FuncRef(None) if n.ty.kind == 'ptr' and n.ty.to.kind == 'func' else NULLP)]
        if k in ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr'): return s.ev(c, st)
        if k == 'BitCast':
            r = s.ev(c, st)
            if n.ty.kind == 'ptr': r = [(st, s.retype(st, v, n.ty.to)) for st, v in r]
            return r
        if k == 'ToVoid': return [(st, None) for st, v in s.ev(c, st)]
        out = []
        if k == 'IntegralCast':
            for st, v in s.ev(c, st):
                v = s.toint(v)
                out.append((st, s.intcast(st, v, c.ty.kind, n.ty.kind, n)))
            return out
        if k in ('IntegralToBoolean', 'PointerToBoolean'): return [(st, s.tobool(v)) for st, v in s.ev(c, st)]
        if k == 'IntegralToPointer':
            for st, v in s.ev(c, st):
                if isinstance(v, T) and v.op == 'int' and v.args[0] == 0: out.append((st, NULLP))
                else: raise Unsupported('int to pointer')
            return out
        if k in ('IntegralToFloating', 'FloatingCast'):
            return [(st, UNDEF) for st, v in s.ev(c, st)]
        if k == 'FloatingToIntegral':
            for st, v in s.ev(c, st):
                x = fresh('float'); s.typed[x.args[0]] = n.ty.kind; out.append((st, x))
            return out
        raise Unsupported('cast ' + k)
    def intcast(s, st, v, f, t, n):
        if f == t or v.sort == 'BV' and {f, t} <= {'int', 'uint'}: return v
        if v.sort == 'BV': v = asint(v)
        (fl, fh), (tl, th) = RANGE[f], RANGE[t]
        if tl <= fl and fh <= th: return v
        if v.op == 'int':
            w = th - tl + 1
            return I((v.args[0] - tl) % w + tl)
        if v.op in ('var', 'app') and v.args[0] in s.typed:
            kl, kh = RANGE[s.typed[v.args[0]]]
            if tl <= kl and kh <= th: return v
        w = th - tl + 1
        inr = and_(le(tl, v), le(v, th))
        for h in s.rangehyps(v): st.assume(h)
        if inr.id in st.known or all(x.id in st.known for x in (inr.args if inr.op == 'and' else [inr])): return v
        return ite(inr, v, add(mod(sub(v, tl), w), tl))
    def retype(s, st, v, to):
        """give an untyped heap block its element type at the first typed cast"""
        if isinstance(v, Ptr) and v.b is not None and v.b.length is None and v.b.size is not None and to.kind not in ('void',):
            b = v.b
            sz = s.prog.sizeof(to)
            b.elem = to
            ln = div(b.size, I(sz))
            b.length = ln
            b.single = False
            if ln.op == 'int' and ln.args[0] == 1 and to.kind == 'struct':
                b.single = True
            for path, ltp in s.prog.leaves(to):
                if ltp.kind == 'array': raise Unsupported('big array')
                if b.ghosts.get('zero'):
                    if ltp.kind == 'ptr' and ltp.to.kind == 'func': z = FuncRef(None) if b.single else AConst(I(0))
                    elif ltp.kind == 'ptr': z = NULLP if b.single else AConst(I(0))
                    else:
                        z0 = bvc(0) if s.leafsort(to, path, ltp) == 'BV' else I(0)
                        z = z0 if b.single else AConst(z0)
                elif b.single: z = UNDEF
                else: z = s.fresh_leaf(b.tag, to, path, ltp, False)
                st.mem[(b.id, path)] = z
        return v
    def e_member(s, n, st): return s.ev_addr(n, st)
    def e_index(s, n, st): return s.ev_addr(n, st)
    def e_init(s, n, st): raise Unsupported('init list')
    def e_un(s, n, st):
        o = n.v
        if o == '!': return [(st, nt(s.tobool(v))) for st, v in s.ev(n.kids[0], st)]
        if o == '&':
            return s.ev_addr(n.kids[0], st)
        if o == '*': return s.ev_addr(n, st)
        if o in ('-', '+', '~'):
            out = []
            for st, v in s.ev(n.kids[0], st):
                v = s.toint(v)
                if o == '+': out.append((st, v)); continue
                if o == '~':
                    if v.op == 'int': out.append((st, I(~v.args[0]) if n.ty.kind == 'int' else I(~v.args[0] & 0xffffffff)))
                    else: out.append((st, bvnot(asbv(v))))
                    continue
                r = sub(0, asint(v))
                if s.fits(st, r, n.ty.kind, n): out.append((st, r))
            return out
        if o in ('++', '--'):
            out = []
            for st, l in s.lval(n.kids[0], st):
                v = s.load(st, l, n)
                if isinstance(v, Ptr): r = s.padd(v, I(1 if o == '++' else -1))
                else:
                    r = add(s.num(v), 1 if o == '++' else -1)
                    r = s.wrapfit(st, r, l.ty.kind, n)
                    if r is None: continue
                s.store(st, l, r, n)
                out.append((st, v if n.x else r))
            return out
        raise Unsupported('unary ' + o)
    def wrapfit(s, st, r, kind, n):
        """result r of arithmetic in type kind: signed -> no-overflow obligation, unsigned -> wraps, narrow -> converts"""
        if kind in ('int', 'long'):
            return r if s.fits(st, r, kind, n) else None
        lo, hi = RANGE[kind]
        if r.op == 'int': return I((r.args[0] - lo) % (hi - lo + 1) + lo)
        inr = and_(le(lo, r), le(r, hi))
        for h in s.rangehyps(r): st.assume(h)
        return ite(inr, r, add(mod(sub(r, lo), hi - lo + 1), lo))
    def e_cassign(s, n, st):
        out = []
        for st, l in s.lval(n.kids[0], st):
            for st, w in s.ev(n.kids[1], st):
                v = s.load(st, l, n)
                if isinstance(v, Ptr):
                    r = s.padd(v, s.num(w) if n.v == '+' else sub(0, s.num(w)))
                    s.store(st, l, r, n); out.append((st, r)); continue
                r = s.arith(st, n.v, v, w, n.x, n)
                if r is None: continue
                r = s.intcast(st, r, n.x.kind, l.ty.kind, n)
                s.store(st, l, r, n); out.append((st, r))
        return out
    def arith(s, st, o, a, b, ty, n):
        kind = ty.kind
        if kind in ('double', 'float'): return UNDEF
        a = s.toint(a); b = s.toint(b)
        if o in ('&', '|', '^'):
            if a.op == 'int' and b.op == 'int':
                x, y = a.args[0], b.args[0]
                return I({'&': x & y, '|': x | y, '^': x ^ y}[o])
            if o == '^' and (b.op == 'int' and b.args[0] == 1 or a.op == 'int' and a.args[0] == 1):
                z = a if b.op == 'int' else b
                if z.sort == 'Int':
                    # xor with 1: exact on non-negative and negative two's complement alike (flips the low bit)
                    for x in (0, 1):
                        pass
                    return xor1(z)
            if a.sort == 'Int' and b.sort == 'Int':
                r = s.intbits(st, o, a, b, n)
                if r is not None: return r
            return bvop({'&': 'bvand', '|': 'bvor', '^': 'bvxor'}[o], a, b)
        a = asint(a); b = asint(b)
        if o == '<<':
            if b.op != 'int':
                if a.op == 'int' and a.args[0] == 1:
                    if not s.oblige(st, 'shift amount in range', 'shift', and_(le(0, b), le(b, 30)), n): return None
                    r = I(0)
                    for k in reversed(range(31)): r = ite(eq(b, k), I(1 << k), r)
                    s.pows[r.id] = b
                    return r
                raise Unsupported('variable shift')
            if not 0 <= b.args[0] < 32: s.oblige(st, 'shift amount in range', 'shift', FALSE, n); return None
            r = scale(1 << b.args[0], a)
            if kind in ('int', 'long'):
                if not s.oblige(st, 'left operand of << is not negative', 'shift', le(0, a), n): return None
            return s.wrapfit(st, r, kind, n)
        if o == '>>':
            if b.op != 'int': 
                if not s.oblige(st, 'shift amount in range', 'shift', and_(le(0, b), le(b, 30)), n): return None
                r = I(0)
                for k in reversed(range(31)): r = ite(eq(b, k), div(a, I(1 << k)), r)
                return r
            return div(a, I(1 << b.args[0]))
        if o == '+': r = add(a, b)
        elif o == '-': r = sub(a, b)
        elif o == '*': r = mul(a, b)
        elif o in ('/', '%'):
            if not s.oblige(st, 'divisor is not zero', 'div', ne(b, 0), n): return None
            if b.op == 'int' and b.args[0] > 0:
                nonneg = le(0, a).id in st.known or s.nonneg(a)
                if o == '/': r = div(a, b) if nonneg else tdiv(a, b)
                else: r = mod(a, b) if nonneg else tmod(a, b)
                return r
            # general: magnitude division
            q = ite(le(0, a), ite(le(0, b), div(a, b), sub(0, div(a, sub(0, b)))), ite(le(0, b), sub(0, div(sub(0, a), b)), div(sub(0, a), sub(0, b))))
            r = q if o == '/' else sub(a, mul(q, b))
            return r if o == '%' else s.wrapfit(st, r, kind, n)
        else: raise Unsupported('op ' + o)
        return s.wrapfit(st, r, kind, n)
    def nonneg(s, a):
        c, m = lin(a)
        if c < 0: return False
        for x, k in m.items():
            if k < 0: return False
            if x.op in ('mod',): continue
            if x.op in ('var', 'app') and s.typed.get(x.args[0]) in ('ulong', 'uint', 'uchar'): continue
            return False
        return True
    def intbits(s, st, o, a, b, n):
        """bit operations on integers with constant masks"""
        if a.op == 'int': a, b = b, a
        if b.op == 'int':
            m = b.args[0]
            if m == 0: return {'&': I(0), '|': a, '^': a}[o]
            if o == '&' and m > 0 and (m & (m + 1)) == 0: return mod(a, I(m + 1))
            if o == '&' and m > 0:
                # contiguous mask  hi..lo : (a mod 2^(hi+1)) - (a mod 2^lo)
                lo = (m & -m).bit_length() - 1; w = m >> lo
                if w & (w + 1) == 0:
                    h = m.bit_length()
                    return sub(mod(a, I(1 << h)), mod(a, I(1 << lo)))
            if o == '^' and m == 1: return xor1(a)
            if o == '&' and m == -2: return ite(lt(a, xor1(a)), a, xor1(a))
            if o == '&' and m < 0 and (-m) & (-m - 1) == 0: return sub(a, mod(a, I(-m)))
            if o == '|' and m > 0 and m & (m - 1) == 0: return add(a, sub(m, sub(mod(a, I(2 * m)), mod(a, I(m)))))
            return None
        # one of several constants (as from 1 << i): case by case
        for x, y in ((a, b), (b, a)):
            if y.op == 'ite' and s.constite(y):
                def go(z):
                    if z.op == 'int': return s.arith(st, o, x, z, CT('int'), n)
                    return ite(z.args[0], go(z.args[1]), go(z.args[2]))
                if o == '|' and y.sort == 'Int' and s.shiftof(y) is not None:
                    # x | (1 << p): the facts that define the operation on single bits
                    p = s.shiftof(y); r = fresh('or')
                    q = bvar('b')
                    st.assume(forall([q], implies(le(0, q), eq(bit(r, q), or_(eq(q, p), bit(x, q)))), [[bit(r, q)]]))
                    st.assume(implies(le(0, x), and_(le(x, r), le(r, add(x, y)))))
                    for k in (6, 7, 8, 31): st.assume(implies(and_(le(0, x), lt(x, 1 << k), lt(p, k)), lt(r, 1 << k)))
                    return r
                if s.constite(y, pow2=True): return go(y)
        if o in ('|', '^', '+'):
            # operands without common bits: one is a multiple of 2^k, the other below 2^k
            for x, y in ((a, b), (b, a)):
                c, m = lin(x)
                g = 0
                for z in [c] + list(m.values()): g = math.gcd(g, z)
                k = g & -g
                if k > 1 and not s.dry and s.quick(st, and_(le(0, y), lt(y, k))): return add(x, y)
                if k > 1 and s.dry: return add(x, y)
        return None
    def quick(s, st, goal):
        from . import smt
        hs = []; p = st.pc
        while p is not None: hs.append(p[1]); p = p[0]
        return smt.prove(hs[::-1] + s.rangehyps(goal), goal, 2)[0] == 'proved'
    def shiftof(s, y):
        """p when y is the value built for 1 << p"""
        return s.pows.get(y.id)
    def constite(s, z, pow2=False):
        if z.op == 'int': return not pow2 or z.args[0] == 0 or z.args[0] > 0 and z.args[0] & (z.args[0] - 1) == 0
        return z.op == 'ite' and s.constite(z.args[1], pow2) and s.constite(z.args[2], pow2)
    def e_bin(s, n, st):
        o = n.v
        if o == ',':
            out = []
            for st, _ in s.ev(n.kids[0], st): out += s.ev(n.kids[1], st)
            return out
        if o == '=':
            out = []
            for st, v in s.ev(n.kids[1], st):
                for st, l in s.lval(n.kids[0], st):
                    if s.store(st, l, v, n): out.append((st, v))
            return out
        if o in ('&&', '||'): return s.logic(n, st)
        out = []
        for st, a in s.ev(n.kids[0], st):
            for st, b in s.ev(n.kids[1], st):
                r = s.binop(st, o, a, b, n)
                if r is not None: out.append((st, r))
        return out
    def binop(s, st, o, a, b, n):
        if isinstance(a, (Ptr, FuncRef, FuncSym)) or isinstance(b, (Ptr, FuncRef, FuncSym)):
            if o in ('==', '!='):
                e = s.ptreq(a, b)
                return e if o == '==' else nt(e)
            if isinstance(a, Ptr) and isinstance(b, T):
                return s.padd(a, s.num(b) if o == '+' else sub(0, s.num(b)))
            if isinstance(b, Ptr) and isinstance(a, T) and o == '+': return s.padd(b, s.num(a))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b:
                if o == '-': return sub(a.i, b.i)
                if o == '<': return lt(a.i, b.i)
                if o == '<=': return le(a.i, b.i)
                if o == '>': return lt(b.i, a.i)
                if o == '>=': return le(b.i, a.i)
            raise Unsupported('pointer op ' + o)
        if isinstance(a, Undef) or isinstance(b, Undef):
            if o in ('==', '!=', '<', '>', '<=', '>='): return fresh('undef', 'Bool')
            return UNDEF
        if o in ('==', '!='):
            a = s.toint(a) if not (isinstance(a, T) and a.sort == 'Bool' and isinstance(b, T) and b.sort == 'Bool') else a
            b = s.toint(b) if a.sort != 'Bool' else b
            e = eq(a, b)
            return e if o == '==' else nt(e)
        if o in ('<', '<=', '>', '>='):
            a = s.num(a); b = s.num(b)
            return {'<': lt(a, b), '<=': le(a, b), '>': lt(b, a), '>=': le(b, a)}[o]
        return s.arith(st, o, a, b, n.ty, n)
    def ptreq(s, a, b):
        if isinstance(a, FuncSym) or isinstance(b, FuncSym):
            def t(v):
                if isinstance(v, FuncSym): return v.t
                if isinstance(v, FuncRef): return I(0) if v.name is None else var('fn:' + v.name)
                if isinstance(v, Ptr) and v.b is None: return I(0)
                raise Unsupported('cmp')
            return eq(t(a), t(b))
        if isinstance(a, FuncRef) and isinstance(b, FuncRef): return B(a.name == b.name)
        if isinstance(a, FuncRef): return B(a.name is None) if isinstance(b, Ptr) and b.b is None else FALSE
        if isinstance(b, FuncRef): return s.ptreq(b, a)
        if isinstance(a, T) and a.op == 'int': a = NULLP
        if isinstance(b, T) and b.op == 'int': b = NULLP
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh('undef', 'Bool')
        if a.b is None: return b.null
        if b.b is None: return a.null
        if a.b is b.b and a.path == b.path:
            return or_(and_(a.null, b.null), and_(nt(a.null), nt(b.null), eq(a.i, b.i)))
        return and_(a.null, b.null)
    def logic(s, n, st):
        o = n.v; out = []
        for st, a in s.ev(n.kids[0], st):
            a = s.tobool(a)
            short = (o == '||')
            if (a is TRUE) if short else (a is FALSE): out.append((st, a)); continue
            if (a is FALSE) if short else (a is TRUE):
                out += [(q, s.tobool(v)) for q, v in s.ev(n.kids[1], st)]; continue
            # try: evaluate right side as pure
            q = st.fork()
            if not q.assume(nt(a) if short else a): out.append((st, B(short))); continue
            n0 = len(s.obls)
            wr = s.written; s.written = set()
            mem0 = q.mem.copy()
            rs = s.ev(n.kids[1], q)
            w = s.written; s.written = wr
            if wr is not None: wr |= w
            if len(rs) == 1 and not w and rs[0][0] is q and all(k in mem0 for k in q.mem):
                b = s.tobool(rs[0][1])
                # keep facts assumed while evaluating b in guarded form
                guard = nt(a) if short else a
                x = q.pc; extra = []
                while x is not st.pc and x is not None:
                    extra.append(x[1]); x = x[0]
                for e in extra:
                    if e is not guard and (guard.op != 'and' or e not in guard.args): st.assume(implies(guard, e))
                out.append((st, or_(a, b) if short else and_(a, b)))
            else:
                if st.assume(a if short else nt(a)): out.append((st, B(short)))
                out += [(z, s.tobool(v)) for z, v in rs]
        return out
    def branch(s, st, c):
        """fork on condition: [(state, bool)]"""
        c = B(c)
        if c is TRUE or c.id in st.known: return [(st, True)]
        if c is FALSE or nt(c).id in st.known: return [(st, False)]
        q = st.fork(); out = []
        if st.assume(c) and s.feasible(st): out.append((st, True))
        if q.assume(nt(c)) and s.feasible(q): out.append((q, False))
        return out
    def feasible(s, st):
        if s.dry or s.feas is None: return True
        return s.feas(st)
    def e_cond(s, n, st):
        out = []
        for st, c in s.ev(n.kids[0], st):
            brs = s.branch(st, s.tobool(c))
            if len(brs) == 1:
                out += s.ev(n.kids[1] if brs[0][1] else n.kids[2], brs[0][0]); continue
            c = s.tobool(c)
            (st1, _), (st2, _) = brs
            m1 = dict(st1.mem); m2 = dict(st2.mem)
            r1 = s.ev(n.kids[1], st1); r2 = s.ev(n.kids[2], st2)
            if len(r1) == 1 and len(r2) == 1 and s.samemem(r1[0][0].mem, m1) and s.samemem(r2[0][0].mem, m2):
                a, b = r1[0][1], r2[0][1]
                if isinstance(a, T) and isinstance(b, T):
                    m = s.merge2(r1[0][0], r2[0][0], c)
                    if m is not None:
                        out.append((m, ite(c, a, b))); continue
            out += r1 + r2
        return out
    def samemem(s, a, b):
        return len(a) == len(b) and all(b.get(k) is v for k, v in a.items())
    def merge2(s, a, b, c=None):
        """merge two states; returns None if pointers disagree"""
        # common prefix of path conditions
        pa = a.pcs(); pb = b.pcs(); k = 0
        while k < len(pa) and k < len(pb) and pa[k] is pb[k]: k += 1
        ra = and_(*pa[k:]); rb = and_(*pb[k:])
        if c is None:
            c = ra
            # choose a small discriminating condition if available
            for x in pa[k:]:
                if nt(x) in pb[k:]: c = x; break
        if a.env is not b.env: return None
        mem = {}
        for key in a.mem:
            if key not in b.mem:
                mem[key] = s.onesided(c, key, a.mem[key]); continue
            x, y = a.mem[key], b.mem[key]
            if x is y: mem[key] = x; continue
            z = s.mergeval(c, x, y)
            if z is None: return None
            mem[key] = z
        for key in b.mem:
            if key not in a.mem: mem[key] = s.onesided(nt(c), key, b.mem[key])
        n = State(); n.X = a.X; n.env = a.env; n.mem = mem; n.depth = a.depth
        p = None; n.known = set()
        for x in pa[:k]:
            p = (p, x); n.known.add(x.id)
        n.pc = p
        d = or_(ra, rb)
        # factor the disjunction as implications on c for better propagation
        if d is not TRUE:
            fa = [x for x in pa[k:] if x is not c]; fb = [x for x in pb[k:] if x is not nt(c)]
            if (c in pa[k:]) and (nt(c) in pb[k:]):
                for x in fa:
                    if x in fb: n.assume(x)
                    else: n.assume(implies(c, x))
                for x in fb:
                    if x not in fa: n.assume(implies(nt(c), x))
            else: n.assume(d)
        return n
    def onesided(s, c, key, v):
        """storage known on one side of a merge only: exists under condition c"""
        return and_(c, v) if key[1] == '$alive' else v
    def mergeval(s, c, x, y):
        if isinstance(x, T) and isinstance(y, T): return ite(c, x, y)
        if isinstance(x, Arr) and isinstance(y, Arr): return AIte(c, x, y)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.same(y): return x
            if x.b is None: return Ptr(y.b, y.i, or_(c, y.null), y.path)
            if y.b is None: return Ptr(x.b, x.i, or_(nt(c), x.null), x.path)
            if x.b is y.b and x.path == y.path: return Ptr(x.b, ite(c, x.i, y.i), ite(c, x.null, y.null), x.path)
            return None
        if isinstance(x, FuncRef) and isinstance(y, FuncRef) and x.name == y.name: return x
        if isinstance(x, FuncSym) and isinstance(y, FuncSym) and x.t is y.t: return x
        if isinstance(x, Undef): return y if isinstance(y, Undef) else None
        if isinstance(x, Agg) or isinstance(y, Agg): return None
        return None
    def mergeall(s, sts, limit=None):
        limit = s.mergelimit if limit is None else limit
        if len(sts) <= limit: return sts
        out = []
        for st in sts:
            done = False
            for i, o in enumerate(out):
                m = s.merge2(o, st)
                if m is not None: out[i] = m; done = True; break
            if not done: out.append(st)
        return out
    # ---------- stores ----------
    def store(s, st, l, v, n):
        if l.b.kind == 'string': s.oblige(st, 'string literal is not modified', 'bounds', FALSE, n); return False
        if isinstance(v, Agg):
            for p, x in v.vals.items():
                lt_ = dict(s.prog.leaves(v.ty))[p]
                s.store(st, LV(l.b, l.i, l.path + p, lt_), x, n)
            return True
        sp = [k for k, x in enumerate(l.path) if isinstance(x, T)]
        if sp:
            s._cur = st
            k = sp[0]; ix = l.path[k]
            for j in range(s.symidx(l, k)):
                ll = LV(l.b, l.i, l.path[:k] + (j,) + l.path[k + 1:], l.ty)
                old = s.load(st, ll, n)
                s.store(st, ll, ite(eq(ix, j), s.toint(v), old), n)
            return True
        key = (l.b.id, l.path)
        if key not in st.mem: raise Unsupported('store to %r.%r' % (l.b, l.path))
        old = st.mem[key]
        if l.b.single or not isinstance(old, Arr):
            if isinstance(v, T) and l.ty.kind in RANGE and s.leafsort(l.b.elem, l.path, l.ty) == 'BV' and l.b.kind != 'local': v = asbv(v)
            if isinstance(v, T) and v.sort == 'Bool' and l.ty.kind in RANGE: v = asint(v)
            st.set(l.b, l.path, v)
        else:
            if isinstance(v, (Ptr, FuncRef, FuncSym)): raise Unsupported('store of pointer into array')
            if isinstance(v, Undef): v = fresh('undef')
            v = s.toint(v)
            v = asbv(v) if old.sort == 'BV' else asint(v)
            st.set(l.b, l.path, AStore(old, (l.i,), v))
        return True
    # ---------- calls ----------
    def e_call(s, n, st):
        f = n.kids[0]
        out = []
        if f.k == 'cast' and f.v == 'FunctionToPointerDecay' and f.kids[0].k == 'func':
            fs = [(st, FuncRef(f.kids[0].v))]
        else: fs = s.ev(f, st)
        for st, fr in fs:
            if not isinstance(fr, FuncRef) or fr.name is None:
                if isinstance(fr, FuncRef): s.oblige(st, 'function pointer is not NULL', 'null', FALSE, n); continue
                raise Unsupported('call through unknown function pointer')
            # arguments
            sts = [(st, [])]
            for a in n.kids[1:]:
                nx = []
                for q, vs in sts:
                    for q2, v in s.ev(a, q): nx.append((q2, vs + [v]))
                sts = nx
            for q, vs in sts: out += s.call(q, fr.name, vs, n)
        return out
    def call(s, st, name, args, n):
        c = next((s.contracts[k] for k in (name + '<' + fr for fr in reversed(s.frame)) if k in s.contracts), None) or s.contracts.get(name)
        if name in s.models and name not in s.prog.funcs: return s.models[name](s, st, args, n)
        if c is not None and c.modular and not (s.depth0 and name == s.fn): 
            return c.apply(s, st, args, n)
        if name in s.models: return s.models[name](s, st, args, n)
        f = s.prog.funcs.get(name)
        if f is None: raise Unsupported('external function ' + name)
        if f.body is None: raise Unsupported('%s: %s' % (name, f.err))
        s.inlined.add(name)
        return s.inline(st, f, args, n)
    depth0 = True
    def inline(s, st, f, args, n):
        if st.depth > 40 or s.frame.count(f.name) > 2: raise Unsupported('recursion in ' + f.name)
        env0 = st.env
        st.env = {}; st.depth += 1
        s.bindparams(st, f, args)
        s.frame.append(f.name)
        outs = s.run(f.body, st)
        s.frame.pop()
        res = []
        for q, sig in outs:
            v = sig[1] if sig and sig[0] == 'return' else None
            if sig and sig[0] in ('break', 'continue'): raise Unsupported('stray signal')
            if v is None and f.ret.kind != 'void': v = UNDEF
            q.env = env0; q.depth -= 1
            res.append((q, v))
        return s.mergereturns(res)
    def mergereturns(s, res):
        if len(res) <= s.mergelimit: return res
        groups = {}
        for q, v in res:
            k = v.id if isinstance(v, T) and v.op == 'int' else ('v', v.sort) if isinstance(v, T) else None if v is None else id(v)
            groups.setdefault(k, []).append((q, v))
        out = []
        for k, g in groups.items():
            if isinstance(k, tuple):
                # merge with an extra pseudo location for the value
                for q, v in g: q.mem[('ret', ())] = v
                for q in s.mergeall([q for q, v in g], 1):
                    out.append((q, q.mem.pop(('ret', ()))))
            else:
                v = g[0][1]
                out += [(q, v) for q in s.mergeall([q for q, _ in g], 1)]
        return out
    def bindparams(s, st, f, args):
        env = {}
        for (nm, pid, ty), v in zip(f.params, args):
            if isinstance(v, T) and ty.kind in RANGE: v = s.toint(v)
            b = Block('%s::%s' % (f.name, nm), ty, None, 'local', True); s.blocks[b.id] = b
            if isinstance(v, Agg):
                for p, x in v.vals.items(): st.mem[(b.id, p)] = x
            else: st.mem[(b.id, ())] = v
            env[pid] = b; env[('n', nm)] = b
        st.env = env
    # ---------- statements ----------
    def run(s, n, st):
        return getattr(s, 's_' + n.k)(n, st)
    def seq(s, ns, st):
        cur = [(st, None)]
        for c in ns:
            nx = []; norm = []
            for q, sig in cur:
                if sig is not None: nx.append((q, sig)); continue
                for z, g in s.run(c, q):
                    if g is None: norm.append(z)
                    else: nx.append((z, g))
            norm = s.mergeall(norm)
            cur = nx + [(z, None) for z in norm]
            if not norm: break
        return cur
    def s_block(s, n, st): 
        if n.x == 'decls': return s.seq(n.kids, st)
        env0 = st.env
        out = s.seq(n.kids, st)
        return out
    def s_decl(s, n, st):
        ty = n.ty; did, storage = n.x
        if ty.kind == 'array':
            b = s.new_block(st, n.v, ty.to, ty.n, 'local')
        else:
            b = s.new_block(st, n.v, ty, single=True, kind='local', undef=True)
        st.env = dict(st.env); st.env[did] = b; st.env[('n', n.v)] = b
        if storage == 'static': raise Unsupported('static local')
        if not n.kids: return [(st, None)]
        ini = n.kids[0]
        if ty.kind == 'array':
            if ini.k == 'str':
                txt = ini.v
                a = AConst(I(0))
                for k, ch in enumerate(txt): a = AStore(a, (k,), I(ord(ch)))
                st.mem[(b.id, ())] = a
                return [(st, None)]
            if ini.k == 'init' and len(s.prog.leaves(ty.to)) == 1:
                a = AConst(I(0)); k = 0
                for c in ini.kids:
                    (st, v), = s.ev(c, st)
                    a = AStore(a, (k,), s.num(v)); k += 1
                st.mem[(b.id, ())] = a
                return [(st, None)]
            raise Unsupported('array init')
        out = []
        if ini.k == 'init':
            lv = s.prog.leaves(ty)
            if len(ini.kids) <= len(lv):
                for (p, lt_), c in itertools.zip_longest(lv, ini.kids):
                    if c is None: v = NULLP if lt_.kind == 'ptr' else I(0)
                    else: (st, v), = s.ev(c, st)
                    st.mem[(b.id, p)] = v
                return [(st, None)]
            raise Unsupported('struct init')
        for q, v in s.ev(ini, st):
            s.store(q, LV(b, None, (), ty), v, n)
            out.append((q, None))
        return out
    def s_expr(s, n, st): return [(q, None) for q, _ in s.ev(n.kids[0], st)]
    def s_if(s, n, st):
        out = []
        for q, c in s.ev(n.kids[0], st):
            for z, b in s.branch(q, s.tobool(c)):
                if b: out += s.run(n.kids[1], z)
                elif len(n.kids) > 2: out += s.run(n.kids[2], z)
                else: out.append((z, None))
        return out
    def s_return(s, n, st):
        if not n.kids: return [(st, ('return', None))]
        return [(q, ('return', v)) for q, v in s.ev(n.kids[0], st)]
    def s_break(s, n, st): return [(st, ('break',))]
    def s_continue(s, n, st): return [(st, ('continue',))]
    def s_case(s, n, st): return s.run(n.kids[1], st)
    def s_default(s, n, st): return s.run(n.kids[0], st)
    def s_switch(s, n, st):
        # flatten: list of (labels, stmts)
        body = n.kids[1].kids
        items = []
        def flat(x):
            labs = []
            while x.k in ('case', 'default'):
                if x.k == 'case': labs.append(x.kids[0]); x = x.kids[1]
                else: labs.append(None); x = x.kids[0]
            return labs, x
        for x in body: items.append(flat(x))
        out = []
        for q, v in s.ev(n.kids[0], st):
            v = s.num(v)
            vals = []
            for labs, _ in items:
                for l in labs:
                    if l is not None:
                        (_, lv), = s.ev(l, q); vals.append(s.num(lv))
            rest = q
            targets = []
            default = None
            for k, (labs, _) in enumerate(items):
                for l in labs:
                    if l is None: default = k; continue
                    if rest is None: continue
                    (_, lv), = s.ev(l, rest)
                    brs = s.branch(rest, eq(v, s.num(lv)))
                    rest = None
                    for z, b in brs:
                        if b: targets.append((z, k))
                        else: rest = z
            if rest is not None: targets.append((rest, default))
            for z, k in targets:
                if k is None: out.append((z, None)); continue
                for w, sig in s.seq([x for _, x in items[k:]], z):
                    if sig == ('break',): sig = None
                    out.append((w, sig))
        norm = s.mergeall([q for q, g in out if g is None])
        return [(q, g) for q, g in out if g is not None] + [(q, None) for q in norm]
    # ---------- loops ----------
    def s_loop(s, n, st):
        ini, cond, body, inc = n.kids
        starts = [(st, None)]
        if ini is not None: starts = s.run(ini, st)
        out = []
        starts2 = s.mergeall([q for q, g in starts if g is None], 1)
        for q in starts2: out += s.loop(n, q)
        return out
    def iterate(s, n, st):
        """one iteration from loop head: returns (continuing states, exit states, signals)"""
        ini, cond, body, inc = n.kids
        cont, exits, sigs = [], [], []
        def docond(q):
            if cond is None: return [(q, True)]
            r = []
            for z, c in s.ev(cond, q): r += s.branch(z, s.tobool(c))
            return r
        if n.v == 'do':
            for z, g in s.run(body, st):
                if g is None or g == ('continue',):
                    for w, b in docond(z): (cont if b else exits).append(w)
                elif g == ('break',): exits.append(z)
                else: sigs.append((z, g))
        else:
            for q, b in docond(st):
                if not b: exits.append(q); continue
                for z, g in s.run(body, q):
                    if g is None or g == ('continue',):
                        if inc is not None: cont += [w for w, _ in s.ev(inc, z)]
                        else: cont.append(z)
                    elif g == ('break',): exits.append(z)
                    else: sigs.append((z, g))
        return cont, exits, sigs
    def writeset(s, n, st):
        """(block, path) pairs written by the loop body (fixpoint of dry runs)"""
        s.dry += 1
        save = s.written, s.obls, s.feas, s.mergelimit
        ws = {}
        s.mergelimit = 2
        ids = {k[0] for k in st.mem}
        for _ in range(8):
            q = st.fork()
            s.havoc(q, ws, st)
            s.written = set()
            cont, exits, sigs = s.iterate(n, q)
            new = {}
            for (b, p) in s.written:
                if b.id in ids and (b.id, p) in st.mem: new[(b, p)] = True
            ptrs = {}
            allst = cont + exits + [z for z, g in sigs]
            for (b, p) in new:
                vs = [z.mem.get((b.id, p)) for z in cont if (b.id, p) in z.mem]
                if any(isinstance(v, (Ptr, FuncRef, FuncSym)) for v in vs + [st.mem[(b.id, p)]]): new[(b, p)] = vs
            fresh_keys = set(new) - set(ws)
            ws.update(new)
            if not fresh_keys: break
        else: raise Unsupported('write set of loop does not stabilise')
        s.written, s.obls, s.feas, s.mergelimit = save
        s.dry -= 1
        return ws
    def havoc(s, st, ws, base):
        for (b, p), info in ws.items():
            old = base.mem[(b.id, p)]
            z = s.anyblock(st, b, p, [old] + (info if isinstance(info, list) else []))
            st.set(b, p, s.havocval(b, p, old, info) if z is None else z)
    def anyblock(s, st, b, p, cand):
        """a pointer member that holds another (re)allocated block in each iteration: a block of its own, provided nothing else points to the candidates"""
        bl = {}
        for v in cand:
            if isinstance(v, Undef): continue
            if not isinstance(v, Ptr) or v.path: return None
            if v.b is not None: bl[v.b.id] = v.b
        if len(bl) < 2 or not isinstance(b, Block) or b.kind == 'local': return None
        es = [x.elem for x in bl.values()]
        if any(e.kind not in ('char', 'uchar') or e.kind != es[0].kind for e in es) or any(x.kind not in ('owned', 'heap') for x in bl.values()): return None
        for k, v in st.mem.items():
            if isinstance(v, Ptr) and v.b is not None and v.b.id in bl and k != (b.id, p):
                if len(s.frame) == 1 and k[0] in s.blocks and s.blocks[k[0]].kind == 'local' and k[0] not in {x.id for x in st.env.values() if isinstance(x, Block)}: continue   # variable of a call that has returned
                return None
        if any(isinstance(v, Ptr) and v.i is not I(0) for v in cand): return None
        nm = fresh_name(b.tag + ':' + '.'.join(str(x) for x in p)); ln = var(nm + '#len')
        x = s.new_block(st, nm, es[0], ln, kind='owned'); st.assume(le(0, ln))
        for i in bl: st.mem[(i, '$alive')] = FALSE; st.mem.pop(('$alloc', i), None)
        return Ptr(x, 0, var(nm + '.null', 'Bool'))
    def havocval(s, b, p, old, info=None):
        lt_ = dict(s.prog.leaves(b.elem)).get(p) if not (isinstance(p, str) or (p and isinstance(p[0], str) and p[0].startswith('$'))) else None
        nm = fresh_name(b.tag + ''.join('.%s' % x for x in p))
        if isinstance(old, Arr):
            if lt_ is not None and lt_.kind in RANGE and old.sort == 'Int': s.typed[nm] = lt_.kind
            return AFun(nm, old.sort, getattr(old, 'arity', 1))
        vs = info if isinstance(info, list) else []
        cand = [v for v in [old] + vs]
        if any(isinstance(v, Ptr) for v in cand):
            bl = {id(v.b): v for v in cand if isinstance(v, Ptr) and v.b is not None}
            if any(not isinstance(v, (Ptr, Undef)) for v in cand): raise Unsupported('pointer havoc of %s' % b.tag)
            if not bl: return NULLP
            if len(bl) > 1: raise Unsupported('pointer variable %s changes block in loop' % b.tag)
            v0 = list(bl.values())[0]
            x = fresh(b.tag + '.off')
            alln = [v for v in cand if isinstance(v, Ptr)]
            null = FALSE if all(v.null is FALSE for v in alln) else fresh(b.tag + '.null', 'Bool')
            idx = v0.i if all(v.b is None or v.i is v0.i for v in alln) else x
            return Ptr(v0.b, idx, null, v0.path)
        if any(isinstance(v, (FuncRef, FuncSym)) for v in cand):
            x = cand[0]
            raise Unsupported('function pointer changes in loop')
        srt = 'Int'
        if isinstance(old, T): srt = old.sort if old.sort != 'Bool' else 'Int'
        else:
            for v in vs:
                if isinstance(v, T): srt = v.sort
        if isinstance(old, Undef) and False: return UNDEF
        if srt == 'Int' and lt_ is not None and lt_.kind in RANGE: s.typed[nm] = lt_.kind
        return var(nm, srt)
    def loop(s, n, st):
        key = (s.frame[-1], n.x)
        if s.dry:
            ws = s.writeset_dry(n, st)
            q = st.fork(); s.havoc(q, ws, st)
            cont, exits, sigs = s.iterate(n, q)
            return [(z, None) for z in s.mergeall(exits, 1)] + sigs
        ann = s.find_ann(key, n, st)
        if ann == 'unroll' or (ann is not None and getattr(ann, 'unroll', None)):
            return s.unroll(n, st, ann.unroll if ann != 'unroll' else 64)
        if ann is None:
            r = s.try_unroll(n, st)
            if r is not None: return r
            raise Unsupported('loop without invariant: %s loop %d (line %d)' % (key[0], key[1], n.line))
        s.loopseen.append(key)
        ws = s.writeset(n, st)
        entry = st
        lc = LoopCtx(s, entry, entry)
        if ann.ghost_init: ann.ghost_init(lc)
        for lab, g in ann.eval(lc):
            s.oblige(st, 'invariant holds on entry: ' + lab, 'inv-init', g, n, assume=False)
        head = st.fork()
        gk = {k: v for k, v in ws.items()}
        s.havoc(head, gk, st)
        for gname in ann.ghosts:
            only = None
            if '@' in gname: gname, only = gname.split('@'); only = getattr(s.views_of(st), only).h.b.id
            for (bid, path), v in list(st.mem.items()):
                if path == ('$' + gname,) and only in (None, bid): head.set(s.blocks[bid], path, s.havocval(s.blocks[bid], path, v))
        hc = LoopCtx(s, head, entry)
        for lab, g in ann.eval(hc):
            if not head.assume(g):
                return []
        for h in s.headranges(head, ws): head.assume(h)
        for lab, pre, concl in ann.lemmas(hc) if ann.lemmas else []:
            s.oblige(head, 'premise of the lemma: ' + lab if lab else 'step', 'lemma', B(pre), n, assume=True)
            if lab: s.assumed.append(lab); head.assume(B(concl))
        s.reach(head, 'loop body reachable', n)
        var0 = ann.variant(hc) if ann.variant else None
        top = head.fork()
        cont, exits, sigs = s.iterate(n, head)
        for z in cont:
            zc = LoopCtx(s, z, entry); zc.head = top
            if ann.ghost_step: ann.ghost_step(zc)
            for lab, g in ann.eval(zc):
                s.oblige(z, 'invariant is preserved: ' + lab, 'inv-keep', g, n, assume=False)
            if var0 is not None:
                v1 = ann.variant(zc)
                s.oblige(z, 'loop terminates (variant decreases)', 'variant', lexless(v1, var0), n, assume=False)
        if var0 is None: s.warn.add('no termination measure: %s loop %d' % key)
        exits = s.mergeall(exits)
        return [(z, None) for z in exits] + sigs
    def headranges(s, st, ws):
        out = []
        for (b, p) in ws:
            v = st.mem[(b.id, p)]
            if isinstance(v, T) and v.op == 'var' and v.args[0] in s.typed:
                lo, hi = RANGE[s.typed[v.args[0]]]; out += [le(lo, v), le(v, hi)]
        return out
    def writeset_dry(s, n, st):
        # inside a dry run: run the body (twice) collecting writes
        ws = {}
        ids = {k[0] for k in st.mem}
        outer = s.written
        for _ in range(3):
            q = st.fork(); s.written = set()
            s.havoc(q, ws, st)
            s.written = set()
            cont, exits, sigs = s.iterate(n, q)
            new = {}
            for (b, p) in s.written:
                if b.id in ids and (b.id, p) in st.mem: new[(b, p)] = True
            for (b, p) in new:
                vs = [z.mem.get((b.id, p)) for z in cont if (b.id, p) in z.mem]
                if any(isinstance(v, (Ptr, FuncRef, FuncSym)) for v in vs + [st.mem[(b.id, p)]]): new[(b, p)] = vs
            if outer is not None: outer |= s.written
            fk = set(new) - set(ws)
            ws.update(new)
            if not fk: break
        s.written = outer
        return ws
    def unroll(s, n, st, k):
        cur = [st]; out = []
        for i in range(k + 1):
            nx = []
            for q in cur:
                cont, exits, sigs = s.iterate(n, q)
                nx += cont; out += [(z, None) for z in exits] + sigs
            cur = s.mergeall(nx)
            if not cur: return out
        raise Unsupported('loop does not end within %d unrollings' % k)
    def try_unroll(s, n, st):
        """loops whose iteration count is decided syntactically (constant bounds) are executed"""
        save_o = len(s.obls); save_seen = len(s.loopseen)
        cur = [st.fork()]; out = []
        try:
            for i in range(40):
                nx = []
                for q in cur:
                    # decide condition syntactically only
                    ini, cond, body, inc = n.kids
                    if n.v == 'do':
                        cont, exits, sigs = s.iterate(n, q)
                    else:
                        if cond is None: raise Unsupported('x')
                        r = s.ev(cond, q.fork())
                        if len(r) != 1: raise Unsupported('x')
                        c = s.tobool(r[0][1])
                        if c not in (TRUE, FALSE) and c.id not in q.known and nt(c).id not in q.known: raise Unsupported('x')
                        cont, exits, sigs = s.iterate(n, q)
                    nx += cont; out += [(z, None) for z in exits] + sigs
                cur = nx
                if not cur: return out
                if len(cur) > 64: raise Unsupported('x')
            raise Unsupported('x')
        except Unsupported:
            del s.obls[save_o:]; del s.loopseen[save_seen:]
            return None
    def reach(s, st, label, n):
        if s.dry: return
        o = Obl(label, 'reach', '%s:%s' % (s.frame[-1] if s.frame else '?', n.line if n is not None else '-'), st.pc, FALSE, s.fn)
        s.obls.append(o)
    def find_ann(s, key, n, st):
        a = s.loopann.get(key)
        if a is not None: return a
        return s.annfallback(key, n, st)
    def annfallback(s, key, n, st): return None

class LoopAnn:
    def __init__(s, inv, variant=None, ghost_init=None, ghost_step=None, ghosts=(), unroll=None, lemmas=None):
        s.lemmas = lemmas; s.inv = inv; s.variant = variant; s.ghost_init = ghost_init; s.ghost_step = ghost_step; s.ghosts = ghosts; s.unroll = unroll
    def eval(s, c):
        out = []
        for i, x in enumerate(s.inv(c)):
            if isinstance(x, tuple): out.append((x[0], B(x[1])))
            else: out.append(('#%d' % (i + 1), B(x)))
        return out

def lexless(a, b):
    """a variant (a number, or a tuple of numbers compared lexicographically) decreases and is bounded below"""
    if not isinstance(b, tuple): a, b = (a,), (b,)
    r = FALSE
    for x, y in reversed(list(zip(a, b))): r = or_(lt(x, y), and_(eq(x, y), r))
    return and_(*[le(0, y) for y in b], r)
class LoopCtx:
    """what a loop invariant may talk about"""
    def __init__(c, X, st, entry): c.X = X; c.st = st; c.entry = entry; c.head = None
    def v(c, name, st=None):
        st = st or c.st
        b = st.env.get(('n', c.rename(name)))
        if b is None: raise MissingLocal(name)
        x = st.mem[(b.id, ())]
        if isinstance(x, T) and x.sort == 'Bool': return asint(x)
        if isinstance(x, T) and x.sort == 'BV': return x
        return x
    renames = None
    def rename(c, name): return (c.X.renames or {}).get(name, name) if getattr(c.X, 'renames', None) else name
    def v0(c, name): return c.v(name, c.entry)      # value at loop entry
    def __getattr__(c, k):
        if k.startswith('_'): raise AttributeError(k)
        return c.v(k)
class MissingLocal(Exception): pass

# ---------- models of external functions (trusted) ----------
def szcount(X, size, elem):
    sz = X.prog.sizeof(elem)
    return div(size, I(sz)), mod(size, I(sz))
def m_malloc(X, st, args, n):
    size = X.num(args[0])
    q = st.fork()
    b = Block('heap%d' % n.line, CT('void'), None, 'heap'); b.size = size; X.blocks[b.id] = b
    st.mem[(b.id, '$alive')] = TRUE
    out = [(st, Ptr(b, 0))]
    if X.allocfail: out.append((q, NULLP))
    st.mem[('$alloc', b.id)] = TRUE
    return out
def m_calloc(X, st, args, n):
    size = mul(X.num(args[0]), X.num(args[1]))
    q = st.fork()
    b = Block('heap%d' % n.line, CT('void'), None, 'heap'); b.size = size; b.ghosts['zero'] = True; X.blocks[b.id] = b
    st.mem[(b.id, '$alive')] = TRUE; st.mem[('$alloc', b.id)] = TRUE
    out = [(st, Ptr(b, 0))]
    if X.allocfail: out.append((q, NULLP))
    return out
def m_free(X, st, args, n):
    p = args[0]
    if isinstance(p, Undef):
        X.oblige(st, 'freed pointer is valid', 'free', FALSE, n); return []
    if p.b is None: return [(st, None)]
    out = []
    for q, isnull in X.branch(st, p.null):
        if isnull: out.append((q, None)); continue
        ok = B(p.b.kind in ('heap', 'owned'))
        if not X.oblige(q, 'freed storage is a live heap block', 'free', and_(ok, q.alive(p.b), eq(p.i, 0), B(p.path == ())), n): continue
        q.set(p.b, '$alive', FALSE)
        q.mem.pop(('$alloc', p.b.id), None)
        out.append((q, None))
    return out
def fill(X, st, p, cnt, fn, n):
    """for every leaf of the element type: arr[i] = fn(path, lt) for p.i <= i < p.i+cnt"""
    b = p.b
    for path, lt_ in X.prog.leaves(b.elem):
        old = st.mem[(b.id, path)]
        z = fn(path, lt_)
        if isinstance(old, Arr):
            lo, hi = p.i, add(p.i, cnt)
            if not isinstance(z, T): z = I(0)
            if lo.op == 'int' and lo.args[0] == 0 and cnt is b.length: st.set(b, path, AConst(z)); continue
            st.set(b, path, ALam(lambda i, old=old, lo=lo, hi=hi, z=z: ite(and_(le(lo, i), lt(i, hi)), z, old.read(i)), old.sort))
        else: st.set(b, path, z)
def m_memset(X, st, args, n):
    p, c, size = args[0], X.num(args[1]), X.num(args[2])
    if not isinstance(p, Ptr) or p.b is None: X.oblige(st, 'memset target valid', 'null', FALSE, n); return []
    if p.b.elem.kind == 'void': raise Unsupported('memset of untyped block')
    cnt, rem = szcount(X, size, p.b.elem)
    if not X.oblige(st, 'memset stays inside the block', 'bounds', and_(nt(p.null), st.alive(p.b), le(0, p.i), eq(rem, 0), le(0, cnt), le(add(p.i, cnt), p.b.length), B(p.path == ())), n): return []
    if p.b.elem.kind in ('char', 'uchar'):
        fn = lambda path, lt_: X.intcast(st, c, 'int', p.b.elem.kind, n)
    else:
        if c.op != 'int' or c.args[0] not in (0, -1, 255): raise Unsupported('memset value')
        z = 0 if c.args[0] == 0 else -1
        def fn(path, lt_):
            if lt_.kind == 'ptr' and lt_.to.kind == 'func': return FuncRef(None)
            if lt_.kind == 'ptr': return NULLP
            return bvc(z) if X.leafsort(p.b.elem, path, lt_) == 'BV' else I(z)
    fill(X, st, p, cnt, fn, n)
    return [(st, p)]
def m_memcpy(X, st, args, n):
    d, q, size = args[0], args[1], X.num(args[2])
    for z in (d, q):
        if not isinstance(z, Ptr) or z.b is None: X.oblige(st, 'memcpy argument valid', 'null', FALSE, n); return []
    if d.path or q.path: raise Unsupported('memcpy of member')
    if d.b.elem.kind != q.b.elem.kind or d.b.elem.name != q.b.elem.name: raise Unsupported('memcpy of different types')
    cnt, rem = szcount(X, size, d.b.elem)
    if not X.oblige(st, 'memcpy stays inside the blocks', 'bounds', and_(nt(d.null), nt(q.null), st.alive(d.b), st.alive(q.b), le(0, d.i), le(0, q.i), eq(rem, 0), le(0, cnt),
        le(add(d.i, cnt), d.b.length), le(add(q.i, cnt), q.b.length)), n): return []
    if d.b is q.b: X.oblige(st, 'memcpy source and target do not overlap', 'bounds', or_(le(add(d.i, cnt), q.i), le(add(q.i, cnt), d.i)), n)
    for path, lt_ in X.prog.leaves(d.b.elem):
        o = st.mem[(d.b.id, path)]; w = st.mem[(q.b.id, path)]
        if isinstance(o, Arr) and isinstance(w, Arr):
            st.set(d.b, path, ALam(lambda i, o=o, w=w, a=d.i, b=q.i, cnt=cnt: ite(and_(le(a, i), lt(i, add(a, cnt))), w.read(add(sub(i, a), b)), o.read(i)), o.sort))
        elif isinstance(o, Arr):
            st.set(d.b, path, AStore(o, (d.i,), w))
        elif isinstance(w, Arr): st.set(d.b, path, w.read(q.i))
        else: st.set(d.b, path, w)
    return [(st, d)]
def m_realloc(X, st, args, n):
    p, size = args[0], X.num(args[1])
    q = st.fork()
    if p.b is None: raise Unsupported('realloc(NULL)')
    if not X.oblige(st, 'reallocated storage is a live heap block', 'free', and_(B(p.b.kind in ('heap', 'owned')), st.alive(p.b), eq(p.i, 0), nt(p.null)), n): return []
    cnt, rem = szcount(X, size, p.b.elem)
    X.oblige(st, 'realloc size is a whole number of elements', 'bounds', eq(rem, 0), n)
    b = Block(p.b.tag, p.b.elem, cnt, 'heap'); X.blocks[b.id] = b
    for path, lt_ in X.prog.leaves(b.elem):
        o = st.mem[(p.b.id, path)]
        f = X.fresh_leaf(b.tag, b.elem, path, lt_, False)
        st.mem[(b.id, path)] = ALam(lambda i, o=o, f=f, L=p.b.length: ite(lt(i, L), o.read(i), f.read(i)), o.sort)
    for k in list(st.mem):
        if k[0] == p.b.id and isinstance(k[1], tuple) and k[1] and isinstance(k[1][0], str) and k[1][0].startswith('$'): st.mem[(b.id, k[1])] = st.mem[k]
    st.mem[(b.id, '$alive')] = TRUE; st.mem[('$alloc', b.id)] = TRUE
    st.set(p.b, '$alive', FALSE); st.mem.pop(('$alloc', p.b.id), None)
    out = [(st, Ptr(b, 0))]
    if X.allocfail: out.append((q, NULLP))
    return out
def m_nop(X, st, args, n):
    x = fresh('ext'); X.typed[x.args[0]] = 'int'
    return [(st, x)]
def m_rand(X, st, args, n):
    x = fresh('rand'); X.typed[x.args[0]] = 'int'
    st.assume(and_(le(0, x), le(x, 2147483647)))
    return [(st, x)]
def m_abs(X, st, args, n):
    v = X.num(args[0])
    X.fits(st, sub(0, v), 'int', n)
    return [(st, ite(le(0, v), v, sub(0, v)))]
MODELS = {'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'memset': m_memset, 'memcpy': m_memcpy, 'realloc': m_realloc,
          'fprintf': m_nop, 'printf': m_nop, 'fflush': m_nop, 'time': m_nop, 'srand': m_nop, 'rand': m_rand, 'abs': m_abs, 'clock': m_nop}
