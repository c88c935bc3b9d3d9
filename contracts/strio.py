"""io/strbuf.c and io/strOrFile.c (C10).  View: a string buffer is a sequence of nonzero characters with a read position; a
string channel is a terminated string with a position."""
from .stack import *
from cdv.conc import CP, Violation
from cdv.contract import scenario
P = 'C10'
BIG = 2**30 - 1
def cview(cls, get):
    def view(s, mem, val): return cls(mem, val)
    return view
class SB:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    size = property(lambda s: s.m.get(s.h, ('size',)))
    cap = property(lambda s: s.m.get(s.h, ('capacity',)))
    pos = property(lambda s: s.m.get(s.h, ('readPos',)))
    buf = property(lambda s: s.m.ptr(s.h, ('buf',)))
    def at(s, i): return s.m.at(s.buf, (), i)
    def wf(s):
        return [('buffer exists', Not(s.m.isnull(s.buf))), ('buffer is live', s.m.alive(s.buf)), ('size and capacity', And(Le(0, s.size, s.cap), Le(s.cap, BIG))), ('storage holds the capacity', lambda: Lt(s.cap, s.m.length(s.buf))),
            ('terminated at its size', lambda: Eq(s.at(s.size), 0)), ('no character inside is the terminator', lambda: All(0, s.size, lambda i: Ne(s.at(i), 0), pat=lambda i: [s.at(i)])), ('read position within the content', Le(0, s.pos, s.size))]
    def same(s, o): return And(Eq(s.size, o.size), All(0, o.size, lambda i: Eq(s.at(i), o.at(i)), pat=lambda i: [s.at(i)]))
SBT = CT('struct', name='strBuf')
class SBKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, SBT, single=True, kind='owned')
        ln = t.var(tag + ':buf#len'); st.assume(t.le(0, ln))
        S = X.new_block(st, tag + ':buf', CT('char'), ln, kind='owned')
        st.mem[(b.id, ('buf',))] = Ptr(S, 0)
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return SB(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        if val.b is not None and mem.st.has(val.b, ('buf',)):
            S = mem.st.get(val.b, ('buf',))
            if isinstance(S, Ptr) and S.b is not None: d[tag + ':buf'] = S.b
        return d
    def cmake(s, g, rng, nm):
        cap = rng.choice([0, 1, 2, 3, 4, 8, 9]); p = CP(g.call('sb_New', cap), SBT)
        n = rng.choice([0, cap, rng.randint(0, cap)]); b = g.field(p, 'buf')
        for i in range(n): g.poke(b + i, 'char', rng.choice([97, 48, 49, 57, 45, 32, 9, 10, 13, 65, -1, -128, 127, 47, 58]))
        g.poke(b + n, 'char', 0); g.setfield(p, ('size',), n); g.setfield(p, ('readPos',), rng.choice([0, n, rng.randint(0, n)]))
        g.tofree += [b, p.addr]; g.trace.append('%s: %r' % (nm, bytes((g.peek(b + i, 'char') & 255) for i in range(n))))
        return p
from cdv.exec import Ptr
KINDS['sb'] = SBKind()
class CStr:
    """a caller's terminated string"""
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    def at(s, i): return s.m.at(s.h, (), i)
    def len(s): return s.m.length(s.h)
    @property
    def n(s):
        """length of the string"""
        if s.m.sym: return s.m.ghost(s.h, 'n', t.I(0))
        return len(s.m.cstr(s.h))
    def wf(s): return And(Le(0, s.n), Lt(s.n, s.len()), Le(s.n, BIG - 1), lambda: Eq(s.at(s.n), 0), lambda: All(0, s.n, lambda i: Ne(s.at(i), 0), pat=lambda i: [s.at(i)]))
class CStrKind(Kind):
    def make(s, X, st, tag, nullable=False):
        ln = t.var(tag + '#len'); st.assume(t.le(0, ln))
        b = X.new_block(st, tag, CT('char'), ln, kind='param')
        nv = t.var(tag + '#strlen')
        from cdv.exec import ALam
        st.mem[(b.id, ('$n',))] = ALam(lambda i: nv, 'Int')
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return CStr(mem, val)
    def blocks(s, mem, val, tag): return {tag: val.b} if val.b else {}
    def cmake(s, g, rng, nm):
        z = ''.join(rng.choice('ab01 \n\r-') for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9, 17])))
        g.trace.append('%s: %r' % (nm, z))
        return CP(g.cstr(z), CT('char'))
KINDS['cstr'] = CStrKind()
SPRE = lambda v, a: v.b.wf()
def rsb(n, r): return SB(n.mem, r)
contract('sb_New', [('capacity', 'int')], requires=lambda v, a: [Le(a.capacity, BIG)], noleak=True, prop=P, modular=False,
    ensures=lambda o, n, a, r: [('negative capacity is refused', Implies(Lt(a.capacity, 0), n.mem.isnull(r))), ('empty buffer of the capacity', Implies(Not(n.mem.isnull(r)), lambda: And([x[1] for x in rsb(n, r).wf()], Eq(rsb(n, r).size, 0), Eq(rsb(n, r).pos, 0), Eq(rsb(n, r).cap, a.capacity))))])
contract('sb_ClearBuf', [('b', 'sb')], requires=SPRE, modifies=['b.size', 'b.readPos', 'b:buf'], prop=P, modular=False,
    ensures=lambda o, n, a, r: n.b.wf() + [('empty', And(Eq(n.b.size, 0), Eq(n.b.pos, 0)))])
isw = lambda c: Or(In(9, c, 14), Eq(c, 32))
isd = lambda c: In(48, c, 58)
contract('sb_ReadSkipWhitespace', [('b', 'sb')], requires=SPRE, modifies=['b.readPos'], prop=P, modular=False,
    loops={'sb_ReadSkipWhitespace:0': (lambda c: [('all before is white space', And(Le(c.X.old.b.pos, c.X.views_of(c.st).b.pos, c.X.old.b.size), All(c.X.old.b.pos, c.X.views_of(c.st).b.pos, lambda i: isw(c.X.old.b.at(i)), pat=lambda i: [c.X.old.b.at(i)])))],
        lambda c: c.X.old.b.size - c.X.views_of(c.st).b.pos)},
    ensures=lambda o, n, a, r: n.b.wf() + [('stops at the first character that is not white space', And(Le(o.b.pos, n.b.pos), Not(isw(o.b.at(n.b.pos))), All(o.b.pos, n.b.pos, lambda i: isw(o.b.at(i)))))])
neg = lambda b: Ite(Eq(b.at(b.pos), 45), b.pos + 1, b.pos)
contract('sb_ReadSkipInteger', [('b', 'sb')], requires=SPRE, modifies=['b.readPos'], prop=P, modular=False,
    loops={'sb_ReadSkipInteger:0': (lambda c: [('only digits skipped', And(Le(neg(c.X.old.b), c.X.views_of(c.st).b.pos, c.X.old.b.size), All(neg(c.X.old.b), c.X.views_of(c.st).b.pos, lambda i: isd(c.X.old.b.at(i)), pat=lambda i: [c.X.old.b.at(i)])))],
        lambda c: c.X.old.b.size - c.X.views_of(c.st).b.pos)},
    ensures=lambda o, n, a, r: n.b.wf() + [('stops after an optional sign and the digits', And(Le(neg(o.b), n.b.pos), Not(isd(o.b.at(n.b.pos))), All(neg(o.b), n.b.pos, lambda i: isd(o.b.at(i)))))])
def concat_post(k, ch):
    def f(o, n, a, r):
        L = k(o, a)
        return n.b.wf() + [('failure leaves the content', Implies(Ne(r, OK), And(Eq(r, NOTOK), n.b.same(o.b), Eq(n.b.cap, o.b.cap)))),
            ('content grows by the string', Implies(Eq(r, OK), Eq(n.b.size, o.b.size + L))), ('old content is kept', Implies(Eq(r, OK), lambda: All(0, o.b.size, lambda i: Eq(n.b.at(i), o.b.at(i)), pat=lambda i: [n.b.at(i)]))),
            ('the string follows in order', Implies(Eq(r, OK), lambda: All(0, L, lambda i: Eq(n.b.at(o.b.size + i), ch(o, a, i))))), ('capacity never shrinks and suffices', Le(o.b.cap, n.b.cap)), ('read position is kept', Eq(n.b.pos, o.b.pos)),
            ('no growth when it fits', Implies(Le(o.b.size + L, o.b.cap), Eq(r, OK), Eq(n.b.cap, o.b.cap)))]
    return f
M10 = ['b.size', 'b.capacity', 'b.buf', 'b:buf']
contract('sb_ConcatString', [('b', 'sb'), ('s', 'cstr?')], requires=lambda v, a: SPRE(v, a) + [('string', Implies(Not(v.s.null), v.s.wf)), ('sizes stay below 2^30', And(Implies(Not(v.s.null), lambda: Le(v.b.size + v.s.n, BIG)), Le(2 * v.b.cap, BIG)))], modifies=M10, prop=P, modular=False, noleak=True,
    ensures=concat_post(lambda o, a: Ite(o.s.null, 0, lambda: o.s.n), lambda o, a, i: o.s.at(i)))
contract('sb_ConcatChar', [('b', 'sb'), ('ch', 'char')], requires=lambda v, a: SPRE(v, a) + [('sizes stay below 2^30', Le(2 * v.b.cap + 1, BIG))], modifies=M10, prop=P, modular=False, noleak=True,
    ensures=concat_post(lambda o, a: Ite(Eq(a.ch, 0), 0, 1), lambda o, a, i: a.ch))
contract('sb_Duplicate', [('b', 'sb?')], requires=lambda v, a: [Implies(Not(v.b.null), lambda: And([x[1] for x in SPRE(v, a)]))], prop=P, modular=False, noleak=True,
    ensures=lambda o, n, a, r: [('equal content and capacity', Implies(Not(n.mem.isnull(r)), lambda: And([x[1] for x in rsb(n, r).wf()], rsb(n, r).same(o.b), Eq(rsb(n, r).cap, o.b.cap), Eq(rsb(n, r).pos, 0)))), ('storage is not shared', Implies(Not(n.mem.isnull(r)), lambda: And(Not(n.mem.same(rsb(n, r).buf, o.b.buf)), Not(n.mem.same(r, o.b.h)))))])
contract('sb_Copy', [('d', 'sb'), ('b', 'sb?')], requires=lambda v, a: v.d.wf() + [Implies(Not(v.b.null), lambda: And([x[1] for x in SPRE(v, a)]))], modifies=['d', 'd:buf'], prop=P, modular=False, noleak=True,
    ensures=lambda o, n, a, r: n.d.wf() + [('content and capacity of the source', Implies(Eq(r, OK), lambda: And(Not(o.b.null), n.d.same(o.b), Eq(n.d.cap, o.b.cap)))), ('failure leaves the target', Implies(Ne(r, OK), And(Eq(r, NOTOK), n.d.same(o.d), Eq(n.d.cap, o.d.cap)))), ('storage is not shared', Implies(Not(o.b.null), lambda: Not(n.mem.same(n.d.buf, n.b.buf))))])
contract('sb_TakeString', [('b', 'sb?')], requires=lambda v, a: [Implies(Not(v.b.null), lambda: And([x[1] for x in SPRE(v, a)]))], modifies=['b.size', 'b.capacity', 'b.readPos', 'b.buf'], prop=P, modular=False, noleak=True,
    ensures=lambda o, n, a, r: [('buffer still well formed', Implies(Not(o.b.null), lambda: And([x[1] for x in n.b.wf()]))), ('hands over the full content and leaves an empty buffer', Implies(Not(n.mem.isnull(r)), lambda: And(Not(o.b.null), n.mem.same(r, o.b.buf), Eq(n.b.size, 0), All(0, o.b.size + 1, lambda i: Eq(n.mem.at(r, (), i), o.b.at(i)))))),
        ('storage is not shared', Implies(Not(o.b.null), lambda: Implies(Not(n.mem.isnull(r)), lambda: Not(n.mem.same(r, n.b.buf))))), ('failure keeps the content', Implies(And(n.mem.isnull(r), Not(o.b.null)), lambda: n.b.same(o.b)))])
# ---------------------------------------------------------------- string channels
SFT = CT('struct', name='strOrFile')
class SF:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    str = property(lambda s: s.m.ptr(s.h, ('theStr',)))
    file = property(lambda s: s.m.ptr(s.h, ('pFile',)))
    pos = property(lambda s: s.m.get(s.h, ('theStrPos',)))
    def at(s, i): return s.m.at(s.str, (), i)
    @property
    def n(s):
        if s.m.sym: return s.m.ghost(s.h, 'n', t.I(0))
        return len(s.m.cstr(s.str))
    def wf(s, n=None):
        L = s.n if n is None else n
        return [('a string channel', And(s.m.isnull(s.file), Not(s.m.isnull(s.str)), s.m.alive(s.str))), ('string is terminated', lambda: And(Le(0, L), Lt(L, s.m.length(s.str)), Le(L, BIG), Eq(s.at(L), 0), All(0, L, lambda i: Ne(s.at(i), 0), pat=lambda i: [s.at(i)]))), ('position within the string', Le(0, s.pos, L))]
class SFKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, SFT, single=True, kind='owned')
        ln = t.var(tag + ':theStr#len'); st.assume(t.le(0, ln))
        S = X.new_block(st, tag + ':theStr', CT('char'), ln, kind='owned')
        st.mem[(b.id, ('theStr',))] = Ptr(S, 0); st.mem[(b.id, ('pFile',))] = t_null()
        nv = t.var(tag + '#strlen')
        from cdv.exec import ALam
        st.mem[(b.id, ('$n',))] = ALam(lambda i: nv, 'Int')
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return SF(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        if val.b is not None and mem.st.has(val.b, ('theStr',)):
            S = mem.st.get(val.b, ('theStr',))
            if isinstance(S, Ptr) and S.b is not None: d[tag + ':theStr'] = S.b
        return d
    def cmake(s, g, rng, nm):
        z = ''.join(rng.choice('ab01 \n\r-~') for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 30])))
        b = g.lib.cdv_malloc(len(z) + 1); import ctypes; ctypes.memmove(b, z.encode() + b'\0', len(z) + 1)
        p = CP(g.call('sf_New', 0, b), SFT); g.setfield(p, ('theStrPos',), rng.choice([0, 0, len(z), rng.randint(0, len(z))]))
        g.tofree += [b, p.addr]; g.trace.append('%s: %r at %d' % (nm, z, g.field(p, 'theStrPos')))
        return p
def t_null():
    from cdv.exec import NULLP
    return NULLP
KINDS['sf'] = SFKind()
FPRE = lambda v, a: v.f.wf()
EOF = -1
contract('sf_getc', [('f', 'sf')], requires=FPRE, modifies=['f.theStrPos'], prop=P, modular=False,
    ensures=lambda o, n, a, r: [('next character, or EOF at the end', And(Eq(r, Ite(Lt(o.f.pos, o.f.n), lambda: o.f.at(o.f.pos), EOF)), Eq(n.f.pos, Ite(Lt(o.f.pos, o.f.n), o.f.pos + 1, o.f.pos))))])
contract('sf_ungetc', [('ch', 'char'), ('f', 'sf')], requires=lambda v, a: FPRE(v, a) + [('not the terminator', Ne(a.ch, 0))], modifies=['f.theStrPos', 'f:theStr'], prop=P, modular=False,
    ensures=lambda o, n, a, r: [('nothing to take back', Implies(Or(Eq(o.f.pos, 0), Eq(a.ch, EOF)), Eq(r, EOF), Eq(n.f.pos, o.f.pos))), ('takes the character back', Implies(And(Lt(0, o.f.pos), Ne(a.ch, EOF)), lambda: And(Eq(r, a.ch), Eq(n.f.pos, o.f.pos - 1), Eq(n.f.at(n.f.pos), a.ch)))),
        ('other characters are kept', All(0, o.f.n + 1, lambda i: Implies(Or(Ne(i, o.f.pos - 1), Eq(a.ch, EOF)), Eq(n.f.at(i), o.f.at(i))))), ('still terminated', lambda: And(Eq(n.f.at(o.f.n), 0), All(0, o.f.n, lambda i: Ne(n.f.at(i), 0))))])
class Buf:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    def at(s, i): return s.m.at(s.h, (), i)
    def len(s): return s.m.length(s.h)
class BufKind(Kind):
    """caller's character array"""
    def make(s, X, st, tag, nullable=False):
        ln = t.var(tag + '#len'); st.assume(t.le(0, ln))
        b = X.new_block(st, tag, CT('char'), ln, kind='param')
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return Buf(mem, val)
    def blocks(s, mem, val, tag): return {tag: val.b} if val.b else {}
    def cmake(s, g, rng, nm):
        k = rng.choice([1, 2, 3, 5, 12]); g.hints += [k, k]
        return CP(g.alloc(k, 0x41), CT('char'))
KINDS['buf'] = BufKind()
def linelen(f, count):
    """what one fgets takes, in Python: at most count-1 characters, through the first \\n, else through the first \\r"""
    z = f.m.cstr(f.str)[f.pos:][:count - 1]
    for c in (b'\n', b'\r'):
        if c in z: return z.index(c) + 1
    return len(z)
def fgets_post(o, n, a, r):
    got = Not(n.mem.isnull(r)); k = n.f.pos - o.f.pos
    NL, CR = 10, 13
    src = lambda i: o.f.at(o.f.pos + i)
    lim = Min(a.count - 1, o.f.n - o.f.pos)
    noNL = All(0, lim, lambda i: Ne(src(i), NL))
    return [('nothing to read', Implies(Or(Le(a.count, 0), Eq(o.f.pos, o.f.n), o.str.null), And(n.mem.isnull(r), Eq(n.f.pos, o.f.pos)))),
        ('something is read otherwise', Implies(And(Lt(0, a.count), Lt(o.f.pos, o.f.n), Not(o.str.null)), got)),
        ('result is the buffer', Implies(got, lambda: n.mem.same(r, o.str.h))),
        ('the next characters in order, terminated', Implies(got, lambda: And(Le(0, k, lim), All(0, k, lambda i: Eq(n.str.at(i), src(i))), Eq(n.str.at(k), 0)))),
        ('the line end is the last character taken', Implies(got, lambda: And(All(0, k - 1, lambda i: Ne(src(i), NL)), Or(Eq(k, lim), Eq(src(k - 1), NL), And(Eq(src(k - 1), CR), noNL)), Implies(noNL, lambda: All(0, k - 1, lambda i: Ne(src(i), CR))))))]
contract('sf_fgets', [('str', 'buf?'), ('count', 'int'), ('f', 'sf')], requires=lambda v, a: FPRE(v, a) + [('room in the buffer', Implies(Not(v.str.null), lambda: Le(a.count, v.str.len())))], modifies=['f.theStrPos', 'str'], prop=P, modular=False, ensures=fgets_post)
contract('sf_fputs', [('s', 'cstr?'), ('f', 'sf')], requires=lambda v, a: FPRE(v, a) + [('string', Implies(Not(v.s.null), v.s.wf)), ('sizes stay below 2^30', Implies(Not(v.s.null), lambda: Le(v.f.n + v.s.n, BIG)))], modifies=['f', 'f:theStr'], prop=P, modular=False, noleak=True,
    ensures=lambda o, n, a, r: [('failure leaves the content', Implies(Lt(r, 0), And(Eq(r, EOF), n.mem.same(n.f.str, o.f.str), Eq(n.f.pos, o.f.pos), n.mem.alive(n.f.str), All(0, o.f.n + 1, lambda i: Eq(n.f.at(i), o.f.at(i)))))),
        ('returns the number of characters', Implies(Le(0, r), lambda: And(Not(o.s.null), Eq(r, o.s.n), Eq(n.f.pos, o.f.pos + o.s.n)))),
        ('old content followed by the string', Implies(Le(0, r), lambda: And(All(0, o.f.n, lambda i: Eq(n.f.at(i), o.f.at(i)), pat=lambda i: [n.f.at(i)]), All(0, o.s.n + 1, lambda i: Eq(n.f.at(o.f.n + i), o.s.at(i)), pat=lambda i: [o.s.at(i)])))),
        ('storage is live', And(n.mem.alive(n.f.str), n.mem.isnull(n.f.file)))])
contract('sf_takeTheStr', [('f', 'sf')], requires=FPRE, modifies=['f.theStr'], prop=P, modular=False, ensures=lambda o, n, a, r: [('hands over the string once', And(n.mem.same(r, o.f.str), n.mem.isnull(n.f.str)))])
contract('sf_closeFile', [('f', 'sf')], requires=FPRE, modifies=['f.pFile'], prop=P, modular=False, ensures=lambda o, n, a, r: [('string channels: OK', And(Eq(r, OK), n.mem.isnull(n.f.file)))])
# ---------------------------------------------------------------- file channels (bounded: compared with a Python model)
import ctypes, tempfile, os
@scenario('file_channel', P)
def file_channel(g, rng, log):
    libc = ctypes.CDLL(None); libc.fopen.restype = ctypes.c_void_p; libc.fopen.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    d = tempfile.mkdtemp(prefix='cdvf')
    try:
        fn = os.path.join(d, 'x'); text = ''
        f = libc.fopen(fn.encode(), b'w'); p = CP(g.call('sf_New', f, 0), SFT)
        for _ in range(rng.randint(0, 4)):
            z = ''.join(rng.choice('ab01 \n-') for _ in range(rng.choice([0, 1, 2, 5, 9])))
            if g.call('sf_fputs', g.cstr(z), p) < 0: raise Violation('writing to a file channel failed')
            text += z
        if g.call('sf_closeFile', p) != OK: raise Violation('closing a file channel failed')
        q = CP(g.alloc(8), CT('ptr', SFT)); g.poke(q.addr, 'ptr', p.addr); g.call('sf_Free', q)
        if g.peek(q.addr, 'ptr'): raise Violation('sf_Free keeps the handle')
        if open(fn).read() != text: raise Violation('file content %r differs from what was written %r' % (open(fn).read(), text))
        f = libc.fopen(fn.encode(), b'r'); p = CP(g.call('sf_New', f, 0), SFT); pos = 0; ops = []
        for _ in range(rng.randint(1, 12)):
            z = rng.random()
            if z < .5:
                c = g.call('sf_getc', p); e = ord(text[pos]) if pos < len(text) else -1
                ops.append('getc'); log({'text': text, 'ops': ops})
                if c != e: raise Violation('getc gave %d instead of %d' % (c, e))
                pos = min(pos + 1, len(text))
            elif z < .7 and 0 < pos:
                ops.append('ungetc'); log({'text': text, 'ops': ops})
                if g.call('sf_ungetc', ord(text[pos - 1]), p) != ord(text[pos - 1]): raise Violation('ungetc failed')
                if g.call('sf_getc', p) != ord(text[pos - 1]): raise Violation('the character taken back is not read next')
            else:
                k = rng.randint(1, 6); b = g.alloc(k); r = g.call('sf_fgets', b, k, p); e = text[pos:pos + k - 1]
                if '\n' in e: e = e[:e.index('\n') + 1]
                ops.append('fgets %d' % k); log({'text': text, 'ops': ops})
                if k > 1:
                    if bool(r) != bool(e): raise Violation('fgets result')
                    if r and ctypes.string_at(b).decode() != e: raise Violation('fgets gave %r instead of %r' % (ctypes.string_at(b), e))
                    pos += len(e)
        g.poke(q.addr, 'ptr', p.addr); g.call('sf_Free', q)
        if g.call('sf_New', 0, 0) or g.call('sf_New', 8, g.cstr('')): raise Violation('a channel needs exactly one of file and string')
    finally: import shutil; shutil.rmtree(d)
