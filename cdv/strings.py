"""Models (trusted) of the C string functions and of character classification in the "C" locale."""
from .terms import *
from .terms import T
from .exec import *
from .exec import Ptr, NULLP, Undef, ALam, MODELS, Block
from .front import CT, RANGE, Unsupported
CH = ('char', 'uchar')
def valid(X, st, p, n, what):
    if isinstance(p, Undef) or not isinstance(p, Ptr) or p.b is None:
        X.oblige(st, '%s: argument is a valid pointer' % what, 'null', FALSE, n); return False
    if p.path or p.b.elem.kind not in CH or p.b.length is None: raise Unsupported(what + ' on something that is not a char array')
    g = and_(nt(p.null), st.alive(p.b), le(0, p.i))
    return g is TRUE or X.oblige(st, '%s: argument is a valid pointer' % what, 'null', g, n)
def bytes_of(st, p): return st.mem[(p.b.id, ())]
def known_len(X, st, p, n, what):
    """length of the string at p: fresh term L constrained by the terminator; obligation: there is a terminator inside the block"""
    if not valid(X, st, p, n, what): return None
    if p.b.text is not None and p.i is I(0): return I(len(p.b.text))
    a = bytes_of(st, p); b = p.b
    if getattr(a, 'slen', None) is not None and a.slen[0] is p.i: return a.slen[1]   # just written by m_sprintf_dec
    k = bvar('z')
    ex = exists([k], and_(le(p.i, k), lt(k, b.length), eq(a.read(k), 0)))
    if not X.oblige(st, '%s: string is terminated inside its block' % what, 'bounds', ex, n): return None
    L = fresh('strlen'); X.typed[L.args[0]] = 'long'
    st.assume(and_(le(0, L), lt(add(p.i, L), b.length), eq(a.read(add(p.i, L)), 0)))
    q = bvar('c')
    body = implies(and_(le(p.i, q), lt(q, add(p.i, L))), nt(eq(a.read(q), 0)))
    from .spec import autopat
    st.assume(forall([q], body, autopat([q], body, [a.read(q)])))
    return L
def m_strlen(X, st, args, n):
    L = known_len(X, st, args[0], n, 'strlen')
    return [] if L is None else [(st, L)]
def put(X, st, d, di, q, qi, cnt, n, what):
    """copy cnt chars from q[qi..] to d[di..]"""
    if not X.oblige(st, '%s: target has room' % what, 'bounds', and_(le(0, di), le(add(di, cnt), d.b.length)), n): return False
    if d.b is q.b and not X.oblige(st, '%s: source and target do not overlap' % what, 'bounds', or_(le(add(di, cnt), qi), le(add(qi, cnt), di)), n): return False
    o = bytes_of(st, d); w = bytes_of(st, q)
    st.set(d.b, (), ALam(lambda i, o=o, w=w: ite(and_(le(di, i), lt(i, add(di, cnt))), w.read(add(sub(i, di), qi)), o.read(i)), 'Int'))
    return True
def m_strcpy(X, st, args, n):
    d, q = args[0], args[1]
    L = known_len(X, st, q, n, 'strcpy')
    if L is None or not valid(X, st, d, n, 'strcpy') or not put(X, st, d, d.i, q, q.i, add(L, 1), n, 'strcpy'): return []
    return [(st, d)]
def m_strcat(X, st, args, n):
    d, q = args[0], args[1]
    L = known_len(X, st, q, n, 'strcat')
    if L is None: return []
    M = known_len(X, st, d, n, 'strcat')
    if M is None or not put(X, st, d, add(d.i, M), q, q.i, add(L, 1), n, 'strcat'): return []
    return [(st, d)]
def m_strncpy(X, st, args, n):
    d, q, c = args[0], args[1], X.num(args[2])
    L = known_len(X, st, q, n, 'strncpy')
    if L is None or not valid(X, st, d, n, 'strncpy'): return []
    if not X.oblige(st, 'strncpy: target has room', 'bounds', and_(le(0, c), le(add(d.i, c), d.b.length)), n): return []
    if d.b is q.b: raise Unsupported('strncpy inside one block')
    o = bytes_of(st, d); w = bytes_of(st, q); di, qi = d.i, q.i
    st.set(d.b, (), ALam(lambda i: ite(and_(le(di, i), lt(i, add(di, c))), ite(lt(sub(i, di), L), w.read(add(sub(i, di), qi)), I(0)), o.read(i)), 'Int'))
    return [(st, d)]
def m_strchr(X, st, args, n):
    p, c = args[0], X.num(args[1])
    L = known_len(X, st, p, n, 'strchr')
    if L is None: return []
    if c.op != 'int' or c.args[0] == 0: raise Unsupported('strchr of a variable character')
    a = bytes_of(st, p); f = fresh('strchr.found', 'Bool'); k = fresh('strchr')
    X.typed[k.args[0]] = 'long'
    q = bvar('c')
    from .spec import autopat
    hi = ite(f, k, L)
    body = implies(and_(le(p.i, q), lt(q, add(p.i, hi))), nt(eq(a.read(q), c)))
    st.assume(and_(le(0, k), implies(f, and_(lt(k, L), eq(a.read(add(p.i, k)), c)))))
    st.assume(forall([q], body, autopat([q], body, [a.read(q)])))
    return [(st, Ptr(p.b, add(p.i, k), nt(f)))]
def ctype(cls):
    def m(X, st, args, n):
        c = X.num(args[0])
        for h in X.rangehyps(c): st.assume(h)
        X.oblige(st, 'character classification argument in range', 'bounds', and_(le(-128, c), le(c, 255)), n)
        x = fresh('ctype'); X.typed[x.args[0]] = 'int'
        st.assume(eq(nt(eq(x, 0)), or_(*[and_(le(lo, c), le(c, hi)) for lo, hi in cls])))
        st.assume(and_(le(-2147483648, x), le(x, 2147483647)))
        return [(st, x)]
    return m
def case(lo, hi, d):
    def m(X, st, args, n):
        c = X.num(args[0])
        return [(st, ite(and_(le(lo, c), le(c, hi)), add(c, d), c))]
    return m
MODELS.update({'strlen': m_strlen, 'strcpy': m_strcpy, 'strcat': m_strcat, 'strncpy': m_strncpy, 'strchr': m_strchr,
    'isspace': ctype([(9, 13), (32, 32)]), 'isdigit': ctype([(48, 57)]), 'isalpha': ctype([(65, 90), (97, 122)]), 'isupper': ctype([(65, 90)]), 'islower': ctype([(97, 122)]),
    'tolower': case(65, 90, 32), 'toupper': case(97, 122, -32)})
import re
def fmtlen(X, st, fmt, args, n, what):
    """upper bound of the number of characters printed"""
    tot = I(0); k = 0; i = 0
    for m in re.finditer(r'%([-+ 0#]*)(\d*|\*)(?:\.(\d+|\*))?(hh|h|ll|l|z)?([a-zA-Z%])', fmt):
        tot = add(tot, m.start() - i); i = m.end()
        fl, w, pr, ln, c = m.groups()
        if c == '%': tot = add(tot, 1); continue
        if w == '*': raise Unsupported(what + ' width')
        width = int(w or 0); prec = None
        if pr == '*': prec = X.num(args[k]); k += 1
        elif pr is not None: prec = I(int(pr))
        if k >= len(args): X.oblige(st, '%s: an argument for every conversion' % what, 'bounds', FALSE, n); return None
        a = args[k]; k += 1
        if c in 'di': L = digits(X, st, X.num(a), 20 if ln in ('l', 'll', 'z') else 11)
        elif c == 'u': L = I(20 if ln else 10)
        elif c in 'xX': L = I(16 if ln else 8)
        elif c == 'c': L = I(1)
        elif c == 's':
            if isinstance(a, Ptr) and a.b is not None and a.b.text is not None and a.i is I(0): L = I(len(a.b.text))
            elif prec is not None: L = prec
            else:
                L = known_len(X, st, a, n, what)
                if L is None: return None
        else: raise Unsupported('%s conversion %%%s' % (what, c))
        tot = add(tot, ite(lt(L, I(width)), I(width), L) if width else L)
    return add(tot, len(fmt) - i)
def digits(X, st, v, mx):
    """number of characters of the decimal representation"""
    if v.op == 'int': return I(len(str(v.args[0])))
    r = I(mx)
    for d in range(9, 0, -1): r = ite(and_(le(0, v), lt(v, 10 ** d)), I(d), r)
    return r
def m_sprintf(X, st, args, n):
    d, f = args[0], args[1]
    if not isinstance(f, Ptr) or f.b is None or f.b.text is None: raise Unsupported('format is not a literal')
    if not valid(X, st, d, n, 'sprintf'): return []
    L = fmtlen(X, st, f.b.text, args[2:], n, 'sprintf')
    if L is None: return []
    if not X.oblige(st, 'sprintf: target has room', 'bounds', lt(add(d.i, L), d.b.length), n): return []
    o = bytes_of(st, d); fr = X.fresh_leaf('sprintf', CT('char'), (), CT('char'), False); k = fresh('sprintf'); X.typed[k.args[0]] = 'int'
    st.assume(and_(le(0, k), le(k, L)))
    lo = d.i
    st.set(d.b, (), ALam(lambda i: ite(and_(le(lo, i), lt(i, add(lo, k))), fr.read(i), ite(eq(i, add(lo, k)), I(0), o.read(i))), 'Int'))
    q = bvar('c')
    body = implies(and_(le(lo, q), lt(q, add(lo, k))), nt(eq(fr.read(q), 0)))
    from .spec import autopat
    st.assume(forall([q], body, autopat([q], body, [fr.read(q)])))
    return [(st, k)]
def m_strcmp(X, st, args, n, limit=None):
    p, q = args[0], args[1]; what = 'strcmp'
    if not (isinstance(q, Ptr) and q.b is not None and q.b.text is not None and q.i is I(0)): p, q = q, p
    if not (isinstance(q, Ptr) and q.b is not None and q.b.text is not None and q.i is I(0)): raise Unsupported('strcmp without a literal')
    if known_len(X, st, p, n, what) is None: return []
    txt = [ord(c) - 256 if ord(c) > 127 else ord(c) for c in q.b.text] + [0]
    if limit is not None: txt = txt[:limit]
    if p.b.text is not None and p.i is I(0):
        w = [ord(c) for c in p.b.text] + [0]
        e = B(w[:len(txt)] == txt)
    else:
        a = bytes_of(st, p)
        e = and_(*[eq(a.read(add(p.i, i)), c) for i, c in enumerate(txt)])
    x = fresh('strcmp'); X.typed[x.args[0]] = 'int'
    st.assume(eq(eq(x, 0), e))
    return [(st, x)]
def m_strncmp(X, st, args, n):
    k = X.num(args[2])
    if k.op != 'int': raise Unsupported('strncmp with variable length')
    return m_strcmp(X, st, args, n, k.args[0])
MODELS.update({'sprintf': m_sprintf, 'strcmp': m_strcmp, 'strncmp': m_strncmp})
def declen(v): return app('decimal.len', (v,), 'Int')
def decchr(v, i): return app('decimal.chr', (v, i), 'Int')
def m_sprintf_dec(X, st, args, n):
    """sprintf with one plain %d: the literal text around the decimal text of the number (named, not computed: decimal.len, decimal.chr)"""
    d, f = args[0], args[1]
    if not isinstance(f, Ptr) or f.b is None or f.b.text is None or f.b.text.count('%') != 1 or '%d' not in f.b.text: return m_sprintf(X, st, args, n)
    if not valid(X, st, d, n, 'sprintf'): return []
    if len(args) < 3: X.oblige(st, 'sprintf: an argument for every conversion', 'bounds', FALSE, n); return []
    a, z = f.b.text.split('%d'); v = X.num(args[2]); L = declen(v); k = fresh('sprintf'); X.typed[k.args[0]] = 'int'
    st.assume(and_(le(1, L), le(L, 11))); st.assume(eq(k, add(L, len(a) + len(z)))); st.assume(nt(eq(k, 0)))
    if not X.oblige(st, 'sprintf: target has room', 'bounds', lt(add(d.i, k), d.b.length), n): return []
    q = bvar('c')
    st.assume(forall([q], implies(and_(le(0, q), lt(q, L)), and_(nt(eq(decchr(v, q), 0)), le(-128, decchr(v, q)), le(decchr(v, q), 127))), [[decchr(v, q)]]))
    o = bytes_of(st, d); lo = d.i; F = X.fresh_leaf('sprintf', CT('char'), (), CT('char'), False)
    for x, c in enumerate(a): st.assume(eq(F.read(add(lo, x)), ord(c)))
    for x, c in enumerate(z): st.assume(eq(F.read(add(add(lo, L), len(a) + x)), ord(c)))
    st.assume(eq(F.read(add(lo, k)), 0))
    st.assume(forall([q], implies(and_(le(0, q), lt(q, L)), eq(F.read(add(add(lo, len(a)), q)), decchr(v, q))), [[decchr(v, q)]]))
    st.assume(forall([q], implies(and_(le(add(lo, len(a)), q), lt(q, add(add(lo, len(a)), L))), eq(F.read(q), decchr(v, sub(q, add(lo, len(a)))))), [[F.read(q)]]))
    st.assume(forall([q], implies(and_(le(lo, q), lt(q, add(lo, k))), nt(eq(F.read(q), 0))), [[F.read(q)]]))
    st.assume(forall([q], implies(or_(lt(q, lo), lt(add(lo, k), q)), eq(F.read(q), o.read(q))), [[F.read(q)]]))
    F.slen = (lo, k); st.set(d.b, (), F)
    return [(st, k)]
