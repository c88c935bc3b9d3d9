"""Specification DSL.  The same contract text is read in two ways:
 MODE 'sym'  - builds terms for the verifier;
 MODE 'conc' - evaluates on concrete memory of the running code (replay / bounded stand-in)."""
from . import terms as t
from .terms import T
MODE = 'sym'
def setmode(m):
    global MODE
    MODE = m
def _f(x): return x() if callable(x) else x
def And(*xs):
    if MODE == 'sym':
        out = []
        for x in flat(xs):
            x = t.B(_f(x))
            if x is t.FALSE: return x
            out.append(x)
        return t.and_(*out)
    return all(_f(x) for x in flat(xs))
def flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)): yield from flat(x)
        else: yield x
def Or(*xs):
    if MODE == 'sym': return t.or_(*[_f(x) for x in flat(xs)])
    return any(_f(x) for x in flat(xs))
def Not(x): return t.nt(_f(x)) if MODE == 'sym' else not _f(x)
def Implies(a, *b):
    if MODE == 'sym':
        a = t.B(_f(a))
        return t.TRUE if a is t.FALSE else t.implies(a, And(*b))
    return (not _f(a)) or And(*b)
def Iff(a, b):
    if MODE == 'sym': return t.eq(t.B(_f(a)), t.B(_f(b)))
    return bool(_f(a)) == bool(_f(b))
def Ite(c, a, b):
    if MODE == 'sym': return t.ite(t.B(_f(c)), _f(a), _f(b))
    return _f(a) if _f(c) else _f(b)
def Eq(a, b): return t.eq(a, b) if MODE == 'sym' else a == b
def Ne(a, b): return t.nt(t.eq(a, b)) if MODE == 'sym' else a != b
def Le(*xs):
    """chain  a <= b <= c"""
    if MODE == 'sym': return t.and_(*[t.le(a, b) for a, b in zip(xs, xs[1:])])
    return all(a <= b for a, b in zip(xs, xs[1:]))
def Lt(a, b): return t.lt(a, b) if MODE == 'sym' else a < b
def In(lo, x, hi):
    """lo <= x < hi"""
    if MODE == 'sym': return t.and_(t.le(lo, x), t.lt(x, hi))
    return lo <= x < hi
def Min(a, b): return Ite(Le(a, b), a, b)
def Max(a, b): return Ite(Le(a, b), b, a)
def Div(a, b): return t.div(a, b) if MODE == 'sym' else a // b
def Mod(a, b): return t.mod(a, b) if MODE == 'sym' else a % b
def Xor1(a): return t.xor1(a) if MODE == 'sym' else a ^ 1
def Bits(x, m):
    """flag word & mask"""
    return t.bvop('bvand', x, t.bvc(m)) if MODE == 'sym' else x & m
def BvOr(x, m): return t.bvop('bvor', x, m if isinstance(m, T) else t.bvc(m)) if MODE == 'sym' else x | m
def BvClear(x, m): return t.bvop('bvand', x, t.bvc(~m)) if MODE == 'sym' else x & ~m & 0xffffffff
def BvXor(x, m): return t.bvop('bvxor', x, m if isinstance(m, T) else t.bvc(m)) if MODE == 'sym' else x ^ m
def Bit(c, b):
    """bit b of integer c"""
    return t.bit(c, b) if MODE == 'sym' else bool(c >> b & 1)
def TRUE(): return t.TRUE if MODE == 'sym' else True

def apps_in(x, vs):
    """UF applications in x whose arguments are plain (bound variables, ground terms or nested applications)"""
    out = []; seen = set()
    vset = set(vs)
    def plain(a):
        if a.op in ('bvar', 'var', 'int'): return True
        if a.op == 'app': return all(plain(b) for b in a.args[1:])
        if a.op == 'xor1': return plain(a.args[0])
        return not (t.fv(a) & vset) and a.op not in ('ite',)
    def go(a):
        if a in seen: return
        seen.add(a)
        if a.op == 'app' and t.fv(a) & vset and all(plain(b) for b in a.args[1:]): out.append(a)
        for c in t.children(a):
            if a.op not in ('forall', 'exists'): go(c)
    go(x)
    return out
def autopat(vs, body, hint=None):
    vset = frozenset(vs)
    if hint is not None:
        pats = []
        for h in hint:
            grp = h if isinstance(h, (list, tuple)) else [h]
            # each element may contain ites (read over write): use the base applications inside
            alts = [[]]
            for g in grp:
                ap = [a for a in apps_in(g, vs)]
                # keep maximal ones that are not nested in others unless nothing else
                top = [a for a in ap if t.fv(a) & vset]
                if not top: continue
                alts = [x + [a] for x in alts for a in top]
            for x in alts:
                if x and frozenset().union(*[t.fv(a) for a in x]) >= vset: pats.append(x)
        if pats: return pats[:12]
    ap = apps_in(body, vs)
    full = [a for a in ap if t.fv(a) >= vset]
    # minimal (smallest) full applications
    mini = [a for a in full if not any(b is not a and b in set(sub(a)) for b in full)]
    if mini: return [[a] for a in mini[:8]]
    # multi-patterns
    per = []
    for v in vs:
        c = [a for a in ap if v in t.fv(a)]
        if not c: return None
        per.append(c[:3])
    import itertools
    return [list(dict.fromkeys(x)) for x in itertools.islice(itertools.product(*per), 6)]
def sub(a):
    r = []; st = list(t.children(a))
    while st:
        x = st.pop(); r.append(x); st.extend(t.children(x))
    return r
def All(lo, hi, fn, pat=None):
    """for all lo <= i < hi: fn(i)"""
    if MODE == 'conc': return all(fn(i) for i in range(lo, hi))
    q = t.bvar('i')
    body = t.implies(t.and_(t.le(lo, q), t.lt(q, hi)), t.B(fn(q)))
    if body is t.TRUE: return body
    return t.forall([q], body, autopat([q], body, pat(q) if pat else None))
def All2(lo, hi, lo2, hi2, fn, pat=None):
    if MODE == 'conc':
        return all(fn(i, j) for i in range(lo, hi) for j in range(_c(lo2, i), _c(hi2, i)))
    p = t.bvar('i'); q = t.bvar('j')
    l2, h2 = _c(lo2, p), _c(hi2, p)
    body = t.implies(t.and_(t.le(lo, p), t.lt(p, hi), t.le(l2, q), t.lt(q, h2)), t.B(fn(p, q)))
    if body is t.TRUE: return body
    return t.forall([p, q], body, autopat([p, q], body, pat(p, q) if pat else None))
def _c(x, i): return x(i) if callable(x) else x
def Exists(lo, hi, fn):
    if MODE == 'conc': return any(fn(i) for i in range(lo, hi))
    q = t.bvar('e')
    return t.exists([q], t.and_(t.le(lo, q), t.lt(q, hi), t.B(fn(q))))
