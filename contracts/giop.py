"""io/graphIO.c: the adjacency matrix writer and adjacency list writers under contract (C18), string buffer channel: the text is exactly the one the graph determines"""
from .strio import *
from .certp import *
from .certp import arcq, upd, gh, V
from .graph import scan_var
from cdv.exec import LoopAnn, NULLP
from cdv.strings import declen, decchr, m_sprintf_dec
P = 'C18'
class NullKind(Kind):
    """an argument that is NULL in this contract"""
    def make(s, X, st, tag, nullable=False): return NULLP
    def view(s, mem, val): return None
    def blocks(s, mem, val, tag): return {}
KINDS['nul'] = NullKind()
LIM = 2**29
def wfs(b): return [(l, x() if callable(x) else x) for l, x in b.wf()]
def rp(g): return lambda v: t.app('rowpos.%d' % g.h.b.id, (t.I(v),), 'Int')
def rdef(g):
    r = rp(g); return [('definition of the offset of a row', And(Eq(r(1), 0), All(1, 1 + g.N, lambda v: Eq(r(v + 1), r(v) + g.N + 1), pat=lambda v: [r(v)]))), ('induction: offsets of rows ascend', All2(1, 2 + g.N, 1, lambda v: v, lambda v, u: Le(r(u) + g.N + 1, r(v)), pat=lambda v, u: [[r(v), r(u)]])), ('induction: offsets are not negative', All(1, 2 + g.N, lambda v: And(Le(0, r(v)), Le(r(v), r(1 + g.N))), pat=lambda v: [r(v)])), ('definition of the offset of a character', All2(1, 1 + g.N, 1, lambda v: 1 + g.N, lambda u, w: Eq(ci(g)(u, w), r(u) + w - 1), pat=lambda u, w: [[ci(g)(u, w)]]))]
def ci(g): return lambda u, w: t.app('rowcell.%d' % g.h.b.id, (t.I(u), t.I(w)), 'Int')
def cell(b, h, g, u, w): return b.at(h + rp(g)(u) + w - 1)
def cel(b, h, g, u, w): return b.at(h + ci(g)(u, w))
arcat = gh('wlp'); rowarc = gh('wla')
def rows(g, gn, b, h, v):
    r = rp(g)
    return [('an arc to a later vertex gives a one', arcq(g, lambda e: Implies(And(Lt(g.own(e), v), Lt(g.own(e), g.nbr(e)), Le(1, g.own(e))), Eq(cell(b, h, g, g.own(e), g.nbr(e)), 49)))),
        ('every character of a row is determined', All2(1, v, 1, lambda u: 1 + g.N, lambda u, w: Ite(Le(w, u), lambda: Eq(cel(b, h, g, u, w), 32), lambda: Or(Eq(cel(b, h, g, u, w), 48), And(Eq(cel(b, h, g, u, w), 49), g.live(arcat(gn, h + ci(g)(u, w))), Eq(g.own(arcat(gn, h + ci(g)(u, w))), u), Eq(g.nbr(arcat(gn, h + ci(g)(u, w))), w)))), pat=lambda u, w: [[ci(g)(u, w)]])),
        ('rows end with a newline', All(1, v, lambda u: Eq(b.at(h + r(u) + g.N), 10), pat=lambda u: [r(u)]))]
def prefix(b, o, n): return ('what was there before is kept', All(0, n, lambda i: Eq(b.at(i), o.at(i)), pat=lambda i: [b.at(i)]))
def mhead(g, b, o, h): L = declen(t.I(g.N)); return ('the header', And(Eq(h, o + L + 1), All(0, L, lambda k: Eq(b.at(o + k), decchr(t.I(g.N), k)), pat=lambda k: [decchr(t.I(g.N), k)]), Eq(b.at(h - 1), 10)))
def R(c): p = c.v('Row'); m = SymMem(c.X, c.st); return lambda i: m.at(p, (), i)
from cdv.contract import SymMem
def vs(c, st=None): return c.X.views_of(st or c.st)
def row_ok(c): p = c.v('Row'); return [('the row buffer is a live heap block', And(c.st.alive(p.b), Not(p.null)))]
def w_inv(c):
    o, n, e = c.X.old, vs(c), vs(c, c.entry); g = o.g; v = c.v('v'); h = e.b.size
    return [Le(1, v, 1 + g.N)] + row_ok(c) + wfs(n.b) + [('size so far', Eq(n.b.size, h + rp(g)(v)))] + rows(g, n.g, n.b, h, v) + [mhead(g, n.b, o.b.size, h), prefix(n.b, o.b, o.b.size)]
def w_step(c):
    n, e = vs(c), vs(c, c.entry); g = c.X.old.g; v = c.v('v', c.head); lo = e.b.size + rp(g)(v); W = c.st.mem[(n.g.h.b.id, ('$wla',))]; A = c.st.mem[(n.g.h.b.id, ('$wlp',))]
    n.g.m.ghostset(n.g.h, 'wlp', lambda i: Ite(And(Le(lo, i), Lt(i, lo + g.N)), W.read(i - lo + 1), A.read(i)))
def k1(c):
    g = c.X.old.g; v, K = c.v('v'), c.v('K'); r = R(c); return row_ok(c) + [Le(1, K, v + 1), ('blanks', All(0, K - 1, lambda i: Eq(r(i), 32), pat=lambda i: [r(i)]))]
def k2(c):
    g = c.X.old.g; v, K = c.v('v'), c.v('K'); r = R(c); return row_ok(c) + [Le(v + 1, K, g.N + 1), ('blanks', All(0, v, lambda i: Eq(r(i), 32), pat=lambda i: [r(i)])), ('zeros', All(v, K - 1, lambda i: Eq(r(i), 48), pat=lambda i: [r(i)]))]
def k3(c):
    g = c.X.old.g; n = vs(c); v, e = c.v('v'), c.v('e'); r = R(c); p = Ite(Eq(e, NIL), lambda: g.deg(v), lambda: g.pos(e))
    return row_ok(c) + [('cursor', Or(Eq(e, NIL), And(g.live(e), Eq(g.own(e), v)))), ('blanks', All(0, v, lambda i: Eq(r(i), 32), pat=lambda i: [r(i)])), ('arcs passed gave ones', arcq(g, lambda f: Implies(And(Eq(g.own(f), v), Lt(g.pos(f), p), Lt(v, g.nbr(f))), Eq(r(g.nbr(f) - 1), 49)))),
        ('zeros, or a one for an arc', All(v, g.N, lambda i: Or(Eq(r(i), 48), And(Eq(r(i), 49), g.live(rowarc(n.g, i + 1)), Eq(g.own(rowarc(n.g, i + 1)), v), Eq(g.nbr(rowarc(n.g, i + 1)), i + 1))), pat=lambda i: [r(i)]))]
def k3_step(c):
    n = vs(c); g = c.X.old.g; e = c.v('e', c.head); v = c.v('v'); A = c.st.mem[(n.g.h.b.id, ('$wla',))]; n.g.m.ghostset(n.g.h, 'wla', lambda w: Ite(And(Eq(w, g.nbr(e)), Lt(v, g.nbr(e))), e, A.read(w)))
def wm_post(o, n, a, r):
    g = o.g; ok = Eq(r, OK); h = n.b.size - rp(g)(1 + g.N)
    return [('OK or NOTOK', Or(ok, Eq(r, NOTOK)))] + [('written: ' + l, Implies(ok, x)) for l, x in rows(g, n.g, n.b, h, 1 + g.N) + [mhead(g, n.b, o.b.size, h), prefix(n.b, o.b, o.b.size)]] + wfs(n.b)
contract('_WriteAdjMatrix@buf', [('g', 'g'), ('f', 'nul'), ('b', 'sb')], alias='_WriteAdjMatrix', prop=P, modular=False, conc_ok=False, use=(), ensures=wm_post, configs=('rel', 'dbg'), modifies=['b.size', 'b.capacity', 'b.buf', 'b:buf', 'g.$wla', 'g.$wlp'], models={'sprintf': m_sprintf_dec},
    requires=lambda v, a: v.g.wf() + v.b.wf() + [real(v.g, 'the graph'), ('the text stays below 2^29 characters', And(Le(v.b.size + 12 + rp(v.g)(1 + v.g.N), LIM), Le(v.g.N, LIM)))], assume=lambda v, a: rdef(v.g),
    loops={'_WriteAdjMatrix@buf:0': LoopAnn(w_inv, lambda c: 1 + c.X.old.g.N - c.v('v'), ghost_step=w_step, ghosts=('wla@g', 'wlp@g')), '_WriteAdjMatrix@buf:1': LoopAnn(k1, lambda c: 1 + c.v('v') - c.v('K')), '_WriteAdjMatrix@buf:2': LoopAnn(k2, lambda c: 1 + c.X.old.g.N - c.v('K')),
        '_WriteAdjMatrix@buf:3': LoopAnn(k3, lambda c: c.X.old.g.deg(c.v('v')) - Ite(Eq(c.v('e'), NIL), lambda: c.X.old.g.deg(c.v('v')), lambda: c.X.old.g.pos(c.v('e'))), ghost_step=k3_step, ghosts=('wla@g',))})
# ---------- adjacency lists ----------
class AL:
    """the text of an adjacency list: lengths, offsets and characters as functions of the graph (offsets follow the lists from their tail)"""
    def __init__(s, g):
        s.g = g; i = g.h.b.id; s.zero = Ne(Bits(g.iflags, 8), t.bvc(0)); s.off = Ite(s.zero, 1, 0); s.nil = Ite(s.zero, -1, 0)
        s.inonly = lambda e: Eq(Bits(g.ef(e), 96), t.bvc(32))
        s.lpos = lambda v: t.app('linepos.%d' % i, (t.I(v),), 'Int'); s.tpos = lambda e: t.app('itempos.%d' % i, (t.I(e),), 'Int'); s.alen = lambda e: t.app('itemlen.%d' % i, (t.I(e),), 'Int')
        s.achr = lambda e, k: t.app('itemchr.%d' % i, (t.I(e), t.I(k)), 'Int'); s.vchr = lambda v, k: t.app('headchr.%d' % i, (t.I(v), t.I(k)), 'Int'); s.fchr = lambda v, k: t.app('tailchr.%d' % i, (t.I(v), t.I(k)), 'Int')
        s.vlen = lambda v: declen(t.I(v - s.off)) + 1; s.flen = declen(t.I(s.nil)) + 2; s.fpos = lambda v: s.lpos(v + 1) - s.flen
        s.hlen = declen(t.I(g.N)) + 3
    def defs(s):
        g = s.g; N = g.N; num = lambda e: t.I(g.nbr(e) - s.off)
        return [('definition of the text', And(Eq(s.lpos(1), 0), arcq2(g, s, lambda e: Eq(s.alen(e), Ite(s.inonly(e), 0, declen(num(e)) + 1))),
                t.forall(*q2(lambda e, k: Eq(s.achr(e, k), Ite(Eq(k, 0), 32, decchr(num(e), k - 1))), s.achr)), t.forall(*q2(lambda v, k: Eq(s.vchr(v, k), Ite(Eq(k, s.vlen(v) - 1), 58, decchr(t.I(v - s.off), k))), s.vchr)),
                t.forall(*q2(lambda v, k: Eq(s.fchr(v, k), Ite(Eq(k, 0), 32, Ite(Eq(k, s.flen - 1), 10, decchr(t.I(s.nil), k - 1)))), s.fchr)))),
            ('definition of the offsets', And(arcq2(g, s, lambda e: Eq(s.tpos(e), Ite(Eq(e, g.last(g.own(e))), s.lpos(g.own(e)) + s.vlen(g.own(e)), s.tpos(g.next(e)) + s.alen(g.next(e))))),
                V(g, lambda v: Eq(s.lpos(v + 1), s.flen + Ite(Eq(g.deg(v), 0), s.lpos(v) + s.vlen(v), s.tpos(g.first(v)) + s.alen(g.first(v)))), lambda v: [s.lpos(v)]))),
            ('induction: offsets ascend', And(arcq2(g, s, lambda e: And(Le(s.lpos(g.own(e)) + s.vlen(g.own(e)), s.tpos(e)), Le(s.tpos(e) + s.alen(e), s.lpos(g.own(e) + 1) - s.flen))), All2(1, 2 + N, 1, lambda v: v, lambda v, u: Le(s.lpos(u) + s.vlen(u) + s.flen, s.lpos(v)), pat=lambda v, u: [[s.lpos(v), s.lpos(u)]]),
                All(1, 2 + N, lambda v: And(Le(0, s.lpos(v)), Le(s.lpos(v), s.lpos(1 + N))), pat=lambda v: [s.lpos(v)]))),
            ('induction: items of a line ascend', t.forall(*q22(lambda e, f: Implies(And(Le(2, e), Lt(e, g.bound), Le(2, f), Lt(f, g.bound), g.live(e), g.live(f), Le(1, g.own(e)), Le(g.own(e), N), Eq(g.own(e), g.own(f)), Lt(g.pos(e), g.pos(f))), Le(s.tpos(f) + s.alen(f), s.tpos(e))), s.tpos))),
            ('decimal texts have 1 to 11 characters', t.forall(*q1(lambda v: And(Le(1, declen(v)), Le(declen(v), 11)), declen)))]
def q1(fn, p): x = t.bvar('i'); return [x], t.B(fn(x)), [[p(x)]]
def q2(fn, p): x = t.bvar('i'); y = t.bvar('j'); return [x, y], t.B(fn(x, y)), [[p(x, y)]]
def q22(fn, p): x = t.bvar('i'); y = t.bvar('j'); return [x, y], t.B(fn(x, y)), [[p(x), p(y)]]
def arcq2(g, s, fn): return All(2, g.bound, lambda e: Implies(And(g.live(e), Le(1, g.own(e)), Le(g.own(e), g.N)), fn(e)), pat=lambda e: [[s.tpos(e)], [s.alen(e)]])
def lines(A, b, h, v, done=None):
    g = A.g; dn = done or (lambda e: And(Le(1, g.own(e)), Lt(g.own(e), v)))
    return [('an item for each arc', All2(2, g.bound, 0, lambda e: A.alen(e), lambda e, k: Implies(And(g.live(e), dn(e)), Eq(b.at(h + A.tpos(e) + k), A.achr(e, k))), pat=lambda e, k: [[A.achr(e, k)]])),
        ('a head for each line', All2(1, v, 0, lambda v: A.vlen(v), lambda v, k: Eq(b.at(h + A.lpos(v) + k), A.vchr(v, k)), pat=lambda v, k: [[A.vchr(v, k)]])),
        ('a tail for each line', All2(1, v, 0, lambda v: A.flen, lambda v, k: Eq(b.at(h + A.fpos(v) + k), A.fchr(v, k)), pat=lambda v, k: [[A.fchr(v, k)]]))] + ([('the number of this line', All(0, A.vlen(v) - 1, lambda k: Eq(b.at(h + A.lpos(v) + k), A.vchr(v, k)), pat=lambda k: [[A.vchr(v, k)]])), ('the colon of this line', Eq(b.at(h + A.lpos(v) + A.vlen(v) - 1), 58))] if done else [])
def header(A, b, o, h): return ('the header', And(Eq(h, o + A.hlen), Eq(b.at(o), 78), Eq(b.at(o + 1), 61), All(0, declen(t.I(A.g.N)), lambda k: Eq(b.at(o + 2 + k), decchr(t.I(A.g.N), k)), pat=lambda k: [decchr(t.I(A.g.N), k)]), Eq(b.at(h - 1), 10)))
def l_inv(c):
    o, n, e = c.X.old, vs(c), vs(c, c.entry); g = o.g; v = c.v('v'); h = e.b.size; A = AL(g)
    return [Le(1, v, 1 + g.N)] + wfs(n.b) + [('size so far', Eq(n.b.size, h + A.lpos(v)))] + lines(A, n.b, h, v) + [header(A, n.b, o.b.size, h), prefix(n.b, o.b, o.b.size)]
def a_inv(c):
    o, n = c.X.old, vs(c); g = o.g; v, e = c.v('v'), c.v('e'); A = AL(g); h = o.b.size + A.hlen
    p = Ite(Eq(e, NIL), -1, lambda: g.pos(e)); dn = lambda f: And(Le(1, g.own(f)), Or(Lt(g.own(f), v), And(Eq(g.own(f), v), Lt(p, g.pos(f)))))
    return [('cursor', Or(Eq(e, NIL), And(g.live(e), Eq(g.own(e), v))))] + wfs(n.b) + [('size so far', Eq(n.b.size, h + Ite(Eq(e, NIL), A.fpos(v), lambda: A.tpos(e))))] + lines(A, n.b, h, v, dn) + [header(A, n.b, o.b.size, h), prefix(n.b, o.b, o.b.size)]
def al_post(o, n, a, r):
    g = o.g; A = AL(g); ok = Eq(r, OK); h = o.b.size + A.hlen
    return [('OK or NOTOK', Or(ok, Eq(r, NOTOK)))] + [('written: ' + l, Implies(ok, x)) for l, x in lines(A, n.b, h, 1 + g.N) + [header(A, n.b, o.b.size, h), ('nothing else', Eq(n.b.size, h + A.lpos(1 + g.N))), prefix(n.b, o.b, o.b.size)]] + wfs(n.b)
contract('_WriteAdjList@buf', [('g', 'g'), ('f', 'nul'), ('b', 'sb')], alias='_WriteAdjList', prop=P, modular=False, conc_ok=False, use=(), ensures=al_post, configs=('rel', 'dbg'), modifies=['b.size', 'b.capacity', 'b.buf', 'b:buf'], models={'sprintf': m_sprintf_dec},
    requires=lambda v, a: v.g.wf() + v.b.wf() + [real(v.g, 'the graph'), ('the text stays below 2^29 characters', And(Le(v.b.size + 15 + AL(v.g).lpos(1 + v.g.N), LIM), Le(v.g.N, LIM)))], assume=lambda v, a: AL(v.g).defs(),
    loops={'_WriteAdjList@buf:0': LoopAnn(l_inv, lambda c: 1 + c.X.old.g.N - c.v('v')), '_WriteAdjList@buf:1': LoopAnn(a_inv, lambda c: Ite(Eq(c.v('e'), NIL), 0, lambda: c.X.old.g.pos(c.v('e')) + 1))})
