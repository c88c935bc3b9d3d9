"""Hash-consed terms, arrays and SMT-LIB printing.

Sorts: 'Int' (mathematical), 'Bool', 'BV' (32-bit vectors, used for flag words).
Term constructors simplify (constant folding, linear normal form) so that most
read-over-write and trivial arithmetic is decided before a solver sees it."""
import itertools, sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_lin', '_fv')
    def __repr__(self): return show(self)
    # arithmetic sugar for the spec DSL
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __neg__(s): return sub(0, s)
    def __le__(s, o): return le(s, o)
    def __lt__(s, o): return lt(s, o)
    def __ge__(s, o): return le(o, s)
    def __gt__(s, o): return lt(o, s)
    def __bool__(s): raise TypeError('term used as a python bool: %s' % show(s))

_tab = {}
_ids = itertools.count()
def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.id = next(_ids); t._lin = None; t._fv = None
        _tab[k] = t
    return t
T.__hash__ = lambda s: s.id

def I(n):
    if isinstance(n, T): return n
    if n is True: return TRUE
    if n is False: return FALSE
    return mk('int', (int(n),), 'Int')
TRUE = mk('true', (), 'Bool'); FALSE = mk('false', (), 'Bool')
def B(b):
    if isinstance(b, T): return b
    return TRUE if b else FALSE
def var(name, sort='Int'): return mk('var', (name,), sort)
_fresh = itertools.count()
def fresh(name='x', sort='Int'): return var('%s!%d' % (name, next(_fresh)), sort)
def fresh_name(name): return '%s!%d' % (name, next(_fresh))
def bvar(name='q', sort='Int'): return mk('bvar', ('%s?%d' % (name, next(_fresh)),), sort)
def bvc(n): return mk('bv', (n & 0xffffffff,), 'BV')
def app(fn, idx, sort): return mk('app', (fn,) + tuple(I(i) for i in idx), sort)

def bit(c, b):
    """bit b of the (two's complement) integer c"""
    c = I(c); b = I(b)
    if c.op == 'int' and b.op == 'int': return TRUE if c.args[0] >> b.args[0] & 1 else FALSE
    return app('bit', (c, b), 'Bool')
# ---------- linear arithmetic ----------
def lin(t):
    """(const, {atom: coef})"""
    if t._lin is not None: return t._lin
    if t.op == 'int': r = (t.args[0], {})
    elif t.op == 'lin':
        r = (t.args[0], dict(t.args[1]))
    else: r = (0, {t: 1})
    t._lin = r
    return r
def mklin(c, m):
    m = {a: k for a, k in m.items() if k != 0}
    if not m: return I(c)
    if c == 0 and len(m) == 1:
        (a, k), = m.items()
        if k == 1: return a
    return mk('lin', (c, tuple(sorted(m.items(), key=lambda p: p[0].id))), 'Int')
def asint(t):
    if not isinstance(t, T): return I(int(t)) if not isinstance(t, bool) else I(1 if t else 0)
    if t.sort == 'Bool': return ite(t, I(1), I(0))
    if t.sort == 'BV': return bv2int(t)
    return t
def add(a, b):
    a = asint(a); b = asint(b)
    ca, ma = lin(a); cb, mb = lin(b)
    m = dict(ma)
    for k, v in mb.items(): m[k] = m.get(k, 0) + v
    return mklin(ca + cb, m)
def scale(k, a):
    c, m = lin(asint(a))
    return mklin(c * k, {x: v * k for x, v in m.items()})
def sub(a, b): return add(a, scale(-1, b))
def mul(a, b):
    a = asint(a); b = asint(b)
    if a.op == 'int': return scale(a.args[0], b)
    if b.op == 'int': return scale(b.args[0], a)
    # distribute over linear terms to obtain sums of monomials
    ca, ma = lin(a); cb, mb = lin(b)
    if len(ma) == 1 and ca == 0 and len(mb) == 1 and cb == 0:
        (x, k), = ma.items(); (y, l), = mb.items()
        fs = (x.args if x.op == 'mul' else (x,)) + (y.args if y.op == 'mul' else (y,))
        fs = tuple(sorted(fs, key=lambda p: p.id))
        return scale(k * l, mk('mul', fs, 'Int'))
    r = I(ca * cb)
    for x, k in ma.items(): r = add(r, scale(k * cb, x))
    for y, l in mb.items(): r = add(r, scale(l * ca, y))
    for x, k in ma.items():
        for y, l in mb.items():
            r = add(r, scale(k * l, mul(x, y)))
    return r
def div(a, b):
    """SMT (Euclidean) division"""
    a = asint(a); b = asint(b)
    if b.op == 'int' and b.args[0] == 1: return a
    if a.op == 'int' and b.op == 'int' and b.args[0] != 0:
        q = a.args[0] // b.args[0] if b.args[0] > 0 else -(a.args[0] // -b.args[0])
        return I(q)
    if b.op == 'int' and b.args[0] > 0:
        c, m = lin(a); k = b.args[0]
        if all(v % k == 0 for v in m.values()):
            return mklin(c // k, {x: v // k for x, v in m.items()})
    return mk('div', (a, b), 'Int')
def mod(a, b):
    a = asint(a); b = asint(b)
    if a.op == 'int' and b.op == 'int' and b.args[0] > 0: return I(a.args[0] % b.args[0])
    if b.op == 'int' and b.args[0] > 0:
        c, m = lin(a); k = b.args[0]
        if k == 1: return I(0)
        m2 = {x: v % k for x, v in m.items() if v % k}
        if not m2: return I(c % k)
        a = mklin(c % k, m2)
    return mk('mod', (a, b), 'Int')
def tdiv(a, b):
    """C division (truncating), b a positive constant or assumed positive operands"""
    a = asint(a); b = asint(b)
    if a.op == 'int' and b.op == 'int' and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        return I(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
    return ite(le(0, a), div(a, b), scale(-1, div(scale(-1, a), b)))
def tmod(a, b):
    a = asint(a); b = asint(b)
    return ite(le(0, a), mod(a, b), scale(-1, mod(scale(-1, a), b)))
def xor1(a):
    a = asint(a)
    if a.op == 'int': return I(a.args[0] ^ 1)
    if a.op == 'xor1': return a.args[0]
    if a.op == 'ite': return ite(a.args[0], xor1(a.args[1]), xor1(a.args[2]))
    c, m = lin(a)
    if m and all(v % 2 == 0 for v in m.values()):
        return add(a, 1 if c % 2 == 0 else -1)
    return mk('xor1', (a,), 'Int')

# ---------- comparisons ----------
def eq(a, b):
    if not isinstance(a, T) and not isinstance(b, T): return B(a == b)
    if not isinstance(a, T): a = conv(a, b.sort)
    if not isinstance(b, T): b = conv(b, a.sort)
    if a is b: return TRUE
    if a.sort != b.sort:
        if 'BV' in (a.sort, b.sort):
            a = asbv(a); b = asbv(b)
        else: a = asint(a); b = asint(b)
        if a is b: return TRUE
    if a.sort == 'Bool':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return nt(b)
        if b is FALSE: return nt(a)
    elif a.sort == 'Int':
        c, m = lin(sub(a, b))
        if not m: return TRUE if c == 0 else FALSE
        # pull an ite of constants apart:  ite(c,k1,k2) == k
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and y.op == 'int':
                p, q = x.args[1], x.args[2]
                if p.op == 'int' or q.op == 'int':
                    return or_(and_(x.args[0], eq(p, y)), and_(nt(x.args[0]), eq(q, y)))
    else:
        if a.op == 'bv' and b.op == 'bv': return TRUE if a.args[0] == b.args[0] else FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and y.op == 'bv' and (x.args[1].op == 'bv' or x.args[2].op == 'bv'):
                return or_(and_(x.args[0], eq(x.args[1], y)), and_(nt(x.args[0]), eq(x.args[2], y)))
    if a.id > b.id: a, b = b, a
    return mk('=', (a, b), 'Bool')
def conv(v, sort):
    if sort == 'BV': return bvc(int(v))
    if sort == 'Bool': return B(bool(v))
    return I(int(v))
def ne(a, b): return nt(eq(a, b))
def le(a, b):
    a = asint(a); b = asint(b)
    c, m = lin(sub(b, a))
    if not m: return TRUE if c >= 0 else FALSE
    return mk('<=', (a, b), 'Bool')
def lt(a, b): return le(add(a, 1), b)

# ---------- boolean ----------
def nt(a):
    a = B(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == '<=': return le(add(a.args[1], 1), a.args[0])
    return mk('not', (a,), 'Bool')
def and_(*xs):
    out = []; seen = set()
    def go(xs):
        for x in xs:
            if isinstance(x, (list, tuple)):
                if not go(x): return False
                continue
            x = B(x)
            if x is FALSE: return False
            if x is TRUE: continue
            if x.op == 'and':
                if not go(x.args): return False
                continue
            if x.id in seen: continue
            if nt(x).id in seen: return False
            seen.add(x.id); out.append(x)
        return True
    if not go(xs): return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'Bool')
def or_(*xs):
    out = []; seen = set()
    def go(xs):
        for x in xs:
            if isinstance(x, (list, tuple)):
                if not go(x): return False
                continue
            x = B(x)
            if x is TRUE: return False
            if x is FALSE: continue
            if x.op == 'or':
                if not go(x.args): return False
                continue
            if x.id in seen: continue
            if nt(x).id in seen: return False
            seen.add(x.id); out.append(x)
        return True
    if not go(xs): return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'Bool')
def implies(a, b): return or_(nt(a), b)
def ite(c, a, b):
    c = B(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if not isinstance(a, T) and not isinstance(b, T): a = I(a) if not isinstance(a, bool) else B(a)
    if not isinstance(a, T): a = conv(a, b.sort)
    if not isinstance(b, T): b = conv(b, a.sort)
    if a is b: return a
    if a.sort != b.sort:
        if 'BV' in (a.sort, b.sort): a = asbv(a); b = asbv(b)
        else: a = asint(a); b = asint(b)
    if c.op == 'not': c = c.args[0]; a, b = b, a
    if a.sort == 'Bool':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(nt(c), b)
        if b is TRUE: return or_(nt(c), a)
        if b is FALSE: return and_(c, a)
    # nested same-condition
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)

# ---------- bit vectors ----------
def asbv(a):
    if not isinstance(a, T): return bvc(int(a))
    if a.sort == 'BV': return a
    if a.sort == 'Bool': return ite(a, bvc(1), bvc(0))
    if a.op == 'int': return bvc(a.args[0])
    if a.op == 'bv2int': return a.args[0]
    if a.op == 'ite': return ite(a.args[0], asbv(a.args[1]), asbv(a.args[2]))
    return mk('int2bv', (a,), 'BV')
def bv2int(a):
    if a.op == 'bv':
        v = a.args[0]
        return I(v - (1 << 32) if v >= 1 << 31 else v)
    if a.op == 'ite': return ite(a.args[0], bv2int(a.args[1]), bv2int(a.args[2]))
    if a.op == 'int2bv': return a.args[0]
    return mk('bv2int', (a,), 'Int')
def bvop(op, a, b):
    a = asbv(a); b = asbv(b)
    if a.op == 'bv' and b.op == 'bv':
        x, y = a.args[0], b.args[0]
        return bvc({'bvand': x & y, 'bvor': x | y, 'bvxor': x ^ y}[op])
    for x, y in ((a, b), (b, a)):
        if x.op == 'bv':
            k = x.args[0]
            if op == 'bvand' and k == 0: return x
            if op == 'bvand' and k == 0xffffffff: return y
            if op in ('bvor', 'bvxor') and k == 0: return y
    if a is b:
        return bvc(0) if op == 'bvxor' else a
    if a.id > b.id: a, b = b, a
    return mk(op, (a, b), 'BV')
def bvnot(a):
    a = asbv(a)
    if a.op == 'bv': return bvc(~a.args[0])
    if a.op == 'bvnot': return a.args[0]
    return mk('bvnot', (a,), 'BV')

# ---------- quantifiers ----------
def forall(vs, body, pats=None):
    body = B(body)
    if body is TRUE or body is FALSE: return body
    return mk('forall', (tuple(vs), body, tuple(tuple(p) for p in pats) if pats else ()), 'Bool')
def exists(vs, body):
    body = B(body)
    if body is TRUE or body is FALSE: return body
    return mk('exists', (tuple(vs), body, ()), 'Bool')

def children(t):
    if t.op == 'lin': return [a for a, _ in t.args[1]]
    if t.op in ('int', 'bv', 'var', 'bvar', 'true', 'false'): return []
    if t.op == 'app': return list(t.args[1:])
    if t.op in ('forall', 'exists'): return [t.args[1]]
    return list(t.args)
def fv(t):
    """free bvars"""
    if t._fv is None:
        if t.op == 'bvar': t._fv = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t): s |= fv(c)
            if t.op in ('forall', 'exists'): s -= frozenset(t.args[0])
            t._fv = s
    return t._fv
def rebuild(t, f):
    """rebuild t with children mapped by f, re-simplifying"""
    o = t.op
    if o == 'lin':
        r = I(t.args[0])
        for a, k in t.args[1]: r = add(r, scale(k, f(a)))
        return r
    if o in ('int', 'bv', 'var', 'bvar', 'true', 'false'): return t
    if o == 'app': return mk('app', (t.args[0],) + tuple(f(a) for a in t.args[1:]), t.sort)
    if o == 'mul':
        r = f(t.args[0])
        for a in t.args[1:]: r = mul(r, f(a))
        return r
    if o in ('forall', 'exists'):
        b = f(t.args[1])
        if o == 'exists': return exists(t.args[0], b)
        return forall(t.args[0], b, [[f(x) for x in p] for p in t.args[2]])
    a = [f(x) for x in t.args]
    return {'=': eq, '<=': le, 'not': nt, 'and': and_, 'or': or_, 'ite': ite, 'div': div, 'mod': mod,
            'xor1': xor1, 'int2bv': asbv, 'bv2int': bv2int, 'bvnot': bvnot,
            'bvand': lambda x, y: bvop('bvand', x, y), 'bvor': lambda x, y: bvop('bvor', x, y),
            'bvxor': lambda x, y: bvop('bvxor', x, y)}[o](*a)
def subst(t, m, memo=None):
    if memo is None: memo = {}
    keys = frozenset(k for k in m)
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t in m: r = m[t]
        elif t.op == 'bvar' or (all(k.op == 'bvar' for k in keys) and not (fv(t) & keys)): r = t
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

_canon = {}; _cid = {}
def _intern(k):
    r = _cid.get(k)
    if r is None: r = _cid[k] = len(_cid)
    return r
def canon(t):
    """key of a closed term up to renaming of bound variables and order of commutative arguments"""
    def go(t, env, n):
        f = fv(t)
        mk = (t, tuple(sorted((v.id, env[v]) for v in f))) if f else t
        r = _canon.get(mk)
        if r is not None: return r
        o = t.op
        if o == 'bvar': return _intern(('b', env[t]))
        if o in ('int', 'bv', 'var', 'true', 'false'): k = (o,) + tuple(t.args)
        elif o in ('forall', 'exists'):
            # de Bruijn levels relative to the enclosing binders that occur in the body
            e2 = {v: env[v] for v in f}
            m = 1 + max(e2.values()) if e2 else 0
            for i, v in enumerate(t.args[0]): e2[v] = m + i
            k = (o, len(t.args[0]), go(t.args[1], e2, m + len(t.args[0])))
        elif o == 'lin': k = ('lin', t.args[0]) + tuple(sorted((go(a, env, n), c) for a, c in t.args[1]))
        elif o == 'app': k = ('app', t.args[0]) + tuple(go(a, env, n) for a in t.args[1:])
        elif o in ('and', 'or', '='): k = (o,) + tuple(sorted(go(a, env, n) for a in t.args))
        else: k = (o,) + tuple(go(a, env, n) for a in t.args)
        r = _canon[mk] = _intern(k)
        return r
    return go(t, {}, 0)
def conjuncts(t):
    if t.op == 'and':
        for a in t.args: yield from conjuncts(a)
    else: yield t

# ---------- arrays (python-level, always beta-reduced on reads) ----------
class Arr:
    sort = 'Int'
class AFun(Arr):
    def __init__(s, name, sort='Int', arity=1): s.name = name; s.sort = sort; s.arity = arity
    def read(s, *i): return app(s.name, i, s.sort)
class AConst(Arr):
    def __init__(s, v): s.v = v; s.sort = v.sort
    def read(s, *i): return s.v
class AStore(Arr):
    def __init__(s, base, idx, val):
        s.base = base; s.idx = tuple(I(x) for x in idx); s.val = val; s.sort = base.sort; s.memo = {}
        if isinstance(val, T) and val.sort != s.sort:
            s.val = asbv(val) if s.sort == 'BV' else asint(val) if s.sort == 'Int' else val
    def read(s, *i):
        i = tuple(I(x) for x in i)
        r = s.memo.get(i)
        if r is None:
            c = and_(*[eq(a, b) for a, b in zip(i, s.idx)])
            r = s.val if c is TRUE else s.base.read(*i) if c is FALSE else ite(c, s.val, s.base.read(*i))
            s.memo[i] = r
        return r
class AIte(Arr):
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b; s.sort = a.sort
    def read(s, *i): return ite(s.c, s.a.read(*i), s.b.read(*i))
class ALam(Arr):
    def __init__(s, fn, sort='Int'): s.fn = fn; s.sort = sort; s.memo = {}
    def read(s, *i):
        i = tuple(I(x) for x in i)
        r = s.memo.get(i)
        if r is None:
            r = s.memo[i] = s.fn(*i)
            if not isinstance(r, T): r = s.memo[i] = conv(r, s.sort)
        return r

# ---------- printing ----------
def sym(n): return '|%s|' % n
def show(t, depth=0):
    o = t.op
    if o == 'int': return str(t.args[0])
    if o == 'bv': return '0x%x' % t.args[0]
    if o in ('var', 'bvar'): return t.args[0]
    if o in ('true', 'false'): return o
    if depth > 12: return '...'
    d = depth + 1
    if o == 'lin':
        return '(' + ' + '.join([('%d*' % k if k != 1 else '') + show(a, d) for a, k in t.args[1]] + ([str(t.args[0])] if t.args[0] else [])) + ')'
    if o == 'app': return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    if o in ('forall', 'exists'): return '(%s %s. %s)' % (o, ' '.join(v.args[0] for v in t.args[0]), show(t.args[1], d))
    return '(%s %s)' % (o, ' '.join(show(a, d) for a in t.args))

class Printer:
    """collects declarations; shares closed DAG nodes through define-funs"""
    def __init__(s):
        s.decls = {}; s.defs = []; s.names = {}; s.count = {}; s.uses_xor1 = False
    def tally(s, t):
        st = [t]
        while st:
            x = st.pop()
            c = s.count.get(x, 0); s.count[x] = c + 1
            if c == 0:
                st.extend(children(x))
                if x.op in ('forall',):
                    for p in x.args[2]: st.extend(p)
    def emit(s, t):
        o = t.op
        if o == 'int': return str(t.args[0]) if t.args[0] >= 0 else '(- %d)' % -t.args[0]
        if o == 'bv': return '#x%08x' % t.args[0]
        if o == 'var':
            s.decls[t.args[0]] = ((), t.sort); return sym(t.args[0])
        if o == 'bvar': return sym(t.args[0])
        if o in ('true', 'false'): return o
        n = s.names.get(t)
        if n: return n
        r = s.raw(t)
        if not fv(t) and len(r) > 40 and s.count.get(t, 2) > 1:
            n = '$%d' % t.id
            s.defs.append('(define-fun %s () %s %s)' % (n, SORT[t.sort], r))
            s.names[t] = n
            return n
        if not fv(t): s.names[t] = r
        return r
    def raw(s, t):
        o = t.op; e = s.emit
        if o == 'lin':
            ps = []
            for a, k in t.args[1]:
                ps.append(e(a) if k == 1 else '(* %s %s)' % (e(I(k)), e(a)))
            if t.args[0]: ps.append(e(I(t.args[0])))
            return ps[0] if len(ps) == 1 else '(+ %s)' % ' '.join(ps)
        if o == 'app':
            s.decls[t.args[0]] = (tuple(a.sort for a in t.args[1:]), t.sort)
            return '(%s %s)' % (sym(t.args[0]), ' '.join(e(a) for a in t.args[1:]))
        if o == 'xor1':
            s.uses_xor1 = True
            return '(xor1 %s)' % e(t.args[0])
        if o in ('forall', 'exists'):
            vs = ' '.join('(%s %s)' % (sym(v.args[0]), SORT[v.sort]) for v in t.args[0])
            b = e(t.args[1])
            if t.args[2]:
                pp = []
                for p in t.args[2]:
                    pp.append(':pattern (%s)' % ' '.join(e(x) for x in p))
                b = '(! %s %s)' % (b, ' '.join(pp))
            return '(%s (%s) %s)' % (o, vs, b)
        if o == 'mul': return '(* %s)' % ' '.join(e(a) for a in t.args)
        if o == 'int2bv': return '((_ int2bv 32) %s)' % e(t.args[0])
        if o == 'bv2int':
            x = e(t.args[0])
            return '(ite (bvslt %s #x00000000) (- (bv2nat %s) 4294967296) (bv2nat %s))' % (x, x, x)
        return '(%s %s)' % ({'=': '=', '<=': '<=', 'not': 'not', 'and': 'and', 'or': 'or', 'ite': 'ite', 'div': 'div', 'mod': 'mod',
                             'bvand': 'bvand', 'bvor': 'bvor', 'bvxor': 'bvxor', 'bvnot': 'bvnot'}[o], ' '.join(e(a) for a in t.args))
SORT = {'Int': 'Int', 'Bool': 'Bool', 'BV': '(_ BitVec 32)'}
XOR1 = '''(declare-fun xor1 (Int) Int)
(assert (forall ((x Int)) (! (and (= (xor1 x) (ite (= (mod x 2) 0) (+ x 1) (- x 1))) (= (xor1 (xor1 x)) x)) :pattern ((xor1 x)))))
'''
