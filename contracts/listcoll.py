"""Contracts of lowLevelUtils/listcoll.[ch].  View: one arbitrary circular list of the collection, as a sequence of distinct
nodes at(0)=head .. at(n-1); all cells outside the touched ones are framed exactly, so every other list is unchanged too."""
from cdv.spec import *
from cdv.contract import *
from cdv.contract import Contract, Kind, KINDS, contract
from cdv.front import CT
from cdv import terms as t
from cdv import spec
NIL = 0
INTMAX = 2**31 - 1
class Seq:
    """a sequence: at(k), n, and (for symbolic use) pos"""
    def __init__(s, n, at, pos=None): s.n = n; s.at = at; s.pos = pos
class LCView:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    N = property(lambda s: s.m.get(s.h, ('N',)))
    L = property(lambda s: s.m.ptr(s.h, ('List',)))
    def next(s, x): return s.m.at(s.L, ('next',), x)
    def prev(s, x): return s.m.at(s.L, ('prev',), x)
    def len(s): return s.m.length(s.L)
    def wf(s):
        return And(Lt(0, s.N), Le(s.N, INTMAX), Not(s.m.isnull(s.L)), lambda: Le(s.N, s.len()))
    def blank(s): return All(0, s.N, lambda x: And(Eq(s.next(x), NIL), Eq(s.prev(x), NIL)), pat=lambda x: [s.next(x)])
    def node(s, x): return And(Lt(0, x), Lt(x, s.N))
    def seq(s, head, name='ring'):
        """the circular list headed by head (NIL: empty)"""
        if spec.MODE == 'sym':
            return Seq(t.var(name + '.n'), lambda k: t.app(name + '.at', (k,), 'Int'), lambda x: t.app(name + '.pos', (x,), 'Int'))
        out = []; x = head
        while x != NIL and len(out) <= s.N:
            out.append(x); x = s.next(x)
            if x == head: break
        return Seq(len(out), lambda k: out[k] if 0 <= k < len(out) else -1, lambda x: out.index(x) if x in out else -1)
    def isring(s, q, head):
        """q is the cyclic sequence of distinct nodes headed by head"""
        nx = lambda k: Ite(Lt(k + 1, q.n), q.at(k + 1) if spec.MODE == 'sym' else (lambda: q.at(k + 1)), q.at(0))
        pv = lambda k: Ite(Lt(0, k), q.at(k - 1), q.at(q.n - 1))
        return [('the list is a sequence', And(Le(0, q.n), Iff(Eq(q.n, 0), Eq(head, NIL)), Implies(Lt(0, q.n), lambda: Eq(q.at(0), head)))),
            ('members are nodes, distinct, linked forward and backward', All(0, q.n, lambda k: And(s.node(q.at(k)), lambda: And(Eq(q.pos(q.at(k)), k),
                Eq(s.next(q.at(k)), nx(k)), Eq(s.prev(q.at(k)), pv(k)))), pat=lambda k: [q.at(k)]))]
    def ringpost(s, q, head):
        """postcondition form (q.pos not needed)"""
        nx = lambda k: Ite(Lt(k + 1, q.n), lambda: q.at(k + 1), lambda: q.at(0))
        pv = lambda k: Ite(Lt(0, k), lambda: q.at(k - 1), lambda: q.at(q.n - 1))
        return And(Implies(Lt(0, q.n), lambda: Eq(q.at(0), head)), Implies(Eq(q.n, 0), Eq(head, NIL)),
            All(0, q.n, lambda k: And(Eq(s.next(q.at(k)), nx(k)), Eq(s.prev(q.at(k)), pv(k)))))
    def member(s, q, x):
        if spec.MODE == 'sym': return And(Le(0, q.pos(x)), Lt(q.pos(x), q.n), Eq(q.at(q.pos(x)), x))
        return q.pos(x) >= 0
def others_kept(o, n, touched):
    return All(0, o.N, lambda x: Implies(And(*[Ne(x, y) for y in touched]), Eq(n.next(x), o.next(x)), Eq(n.prev(x), o.prev(x))))
class LCKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, CT('struct', name='listCollectionRec'), single=True, kind='owned')
        ln = t.var(tag + ':List#len'); st.assume(t.le(0, ln))
        L = X.new_block(st, tag + ':List', CT('struct', name='lcnode'), ln, kind='owned')
        st.mem[(b.id, ('List',))] = Ptr(L, 0)
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return LCView(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        if val.b is not None and mem.st.has(val.b, ('List',)):
            S = mem.st.get(val.b, ('List',))
            if isinstance(S, Ptr) and S.b is not None: d[tag + ':List'] = S.b
        return d
def _cmake(s, g, rng, nm):
    from cdv.conc import CP
    N = rng.choice([2, 3, 4, 5, 6, 9]); p = CP(g.call('LCNew', N), CT('struct', name='listCollectionRec'))
    L = g.field(p, 'List')
    for x in range(N): g.poke(L + 8 * x, 'int', 0); g.poke(L + 8 * x + 4, 'int', 0)
    xs = list(range(1, N)); rng.shuffle(xs)
    rings = []; free = []
    while xs:
        k = rng.randint(1, len(xs)); q, xs = xs[:k], xs[k:]
        if rng.random() < .4: free += q; continue
        for i, x in enumerate(q): g.poke(L + 8 * x, 'int', q[i - 1]); g.poke(L + 8 * x + 4, 'int', q[(i + 1) % k])
        rings.append(q); g.hints += q
    g.hints += free + [0]
    g.tofree += [L, p.addr]; g.trace.append('%s: N=%d lists %s' % (nm, N, rings))
    return p
LCKind.cmake = _cmake
KINDS['lc'] = LCKind()
P = 'C09'
def appended(o, n, a, prepend=False):
    q = o.lc.seq(a.theList)
    if prepend: q2 = Seq(q.n + 1, lambda k: Ite(Eq(k, 0), a.theNode, lambda: q.at(k - 1)))
    else: q2 = Seq(q.n + 1, lambda k: Ite(Lt(k, q.n), lambda: q.at(k), a.theNode))
    return q, q2
def add_req(v, a):
    q = v.lc.seq(a.theList)
    return [v.lc.wf(), v.lc.node(a.theNode)] + v.lc.isring(q, a.theList) + [('the node is not in the list', Not(v.lc.member(q, a.theNode)))]
def addpost(prepend):
    def f(o, n, a, r):
        q, q2 = appended(o, n, a, prepend)
        return [('returned head', Eq(r, Ite(Or(Eq(a.theList, NIL), prepend), a.theNode, a.theList))),
            ('the list gains exactly the node, at the requested end', n.lc.ringpost(q2, r)),
            ('every other list is unchanged', others_kept(o.lc, n.lc, [a.theNode, a.theList, Ite(Eq(a.theList, NIL), a.theNode, lambda: o.lc.prev(a.theList))]))]
    return f
def del_req(v, a):
    q = v.lc.seq(a.theList)
    return [v.lc.wf(), v.lc.node(a.theNode), Ne(a.theList, NIL)] + v.lc.isring(q, a.theList) + [('the node is in the list', v.lc.member(q, a.theNode))]
def delpost(o, n, a, r):
    q = o.lc.seq(a.theList); p = q.pos(a.theNode)
    q2 = Seq(q.n - 1, lambda k: Ite(Lt(k, p), lambda: q.at(k), lambda: q.at(k + 1)))
    return [('returned head: successor when the head is deleted, NIL when the list empties', Eq(r, Ite(Eq(q.n, 1), NIL, Ite(Eq(a.theNode, a.theList), lambda: q.at(1), a.theList)))),
        ('the list loses exactly the node', n.lc.ringpost(q2, r)),
        ('every other list is unchanged', others_kept(o.lc, n.lc, [a.theNode, o.lc.next(a.theNode), o.lc.prev(a.theNode)]))]
Lpre = lambda v, a: [v.lc.wf()]
LCP = [('lc', 'lc'), ('theList', 'int'), ('theNode', 'int')]
def next_req(v, a):
    q = v.lc.seq(a.theList)
    return [v.lc.wf(), Ne(a.theList, NIL)] + v.lc.isring(q, a.theList) + [v.lc.member(q, a.theNode)]
def next_post(o, n, a, r):
    q = o.lc.seq(a.theList); p = q.pos(a.theNode)
    return [('successor in list order, NIL after the last', Eq(r, Ite(Lt(p + 1, q.n), lambda: q.at(p + 1), NIL)))]
def prev_req(v, a):
    q = v.lc.seq(a.theList)
    return [v.lc.wf(), Ne(a.theList, NIL)] + v.lc.isring(q, a.theList) + [Or(Eq(a.theNode, NIL), v.lc.member(q, a.theNode))]
def prev_post(o, n, a, r):
    q = o.lc.seq(a.theList); p = q.pos(a.theNode)
    return [('last when starting, predecessor otherwise, NIL before the head', Eq(r, Ite(Eq(a.theNode, NIL), q.at(q.n - 1), Ite(Eq(p, 0), NIL, lambda: q.at(p - 1)))))]
both = dict(configs=('rel', 'dbg'), prop=P)
def reset_post(o, n, a, r): return [('every node is in no list', All(0, o.lc.N, lambda i: And(Eq(n.lc.next(i), NIL), Eq(n.lc.prev(i), NIL))))]
def copy_post(o, n, a, r): return [('same lists', Implies(Eq(o.d.N, o.s.N), All(0, o.s.N, lambda i: And(Eq(n.d.next(i), o.s.next(i)), Eq(n.d.prev(i), o.s.prev(i))))))]
for pre, cfg in (('w_', ('rel', 'dbg')), ('', ('dbg',))):
    kw = dict(prop=P, configs=cfg)
    contract(pre + 'LCReset', [('lc', 'lc')], requires=Lpre, modifies=['lc:List'], ensures=reset_post, **kw,
        loops={'LCReset:0': (lambda c: [Le(0, c.K, LCView(c.X.old.mem, c.X.old.lc.h).N), All(0, c.K, lambda i: And(Eq(c.X.views_of(c.st).lc.next(i), NIL), Eq(c.X.views_of(c.st).lc.prev(i), NIL)))],
                             lambda c: c.X.old.lc.N - c.K)})
    contract(pre + 'LCCopy', [('d', 'lc'), ('s', 'lc')], requires=lambda v, a: [v.d.wf(), v.s.wf()] + ([Eq(v.d.N, v.s.N)] if spec.MODE == 'sym' else [v.d.N == v.s.N]), modifies=['d:List'], ensures=copy_post, **kw,
        loops={'LCCopy:0': (lambda c: [Le(0, c.K, c.X.old.d.N), All(0, c.K, lambda i: And(Eq(c.X.views_of(c.st).d.next(i), c.X.old.s.next(i)), Eq(c.X.views_of(c.st).d.prev(i), c.X.old.s.prev(i))))],
                            lambda c: c.X.old.d.N - c.K)})
    contract(pre + 'LCGetNext', LCP, requires=next_req, ensures=next_post, **kw)
    contract(pre + 'LCGetPrev', LCP, requires=prev_req, ensures=prev_post, **kw)
    contract(pre + 'LCPrepend', LCP, requires=add_req, ensures=addpost(True), modifies=['lc:List'], **kw)
    contract(pre + 'LCAppend', LCP, requires=add_req, ensures=addpost(False), modifies=['lc:List'], **kw)
    contract(pre + 'LCDelete', LCP, requires=del_req, ensures=delpost, modifies=['lc:List'], **kw)
def after_req(v, a):
    q = v.lc.seq(a.anchor)
    return [v.lc.wf(), v.lc.node(a.theNode), Ne(a.anchor, NIL)] + v.lc.isring(q, a.anchor) + [('the node is not in the list', Not(v.lc.member(q, a.theNode)))]
def after_post(before):
    def f(o, n, a, r):
        q = o.lc.seq(a.anchor)
        # seen from the anchor: anchor, new, rest   |   anchor, rest, new
        if before: q2 = Seq(q.n + 1, lambda k: Ite(Lt(k, q.n), lambda: q.at(k), a.theNode))
        else: q2 = Seq(q.n + 1, lambda k: Ite(Eq(k, 0), a.anchor, Ite(Eq(k, 1), a.theNode, lambda: q.at(k - 1))))
        return [('the node is next to the anchor, nothing else moves', n.lc.ringpost(q2, a.anchor)),
            ('every other list is unchanged', others_kept(o.lc, n.lc, [a.theNode, a.anchor, o.lc.prev(a.anchor) if before else o.lc.next(a.anchor)]))]
    return f
AP = [('lc', 'lc'), ('anchor', 'int'), ('theNode', 'int')]
contract('LCInsertAfter', AP, requires=after_req, ensures=after_post(False), modifies=['lc:List'], **both)
contract('LCInsertBefore', AP, requires=after_req, ensures=after_post(True), modifies=['lc:List'], **both)
def rlc(n, r): return LCView(n.mem, r)
contract('LCNew', [('N', 'int')], modular=False, noleak=True, prop=P, configs=('rel', 'dbg'),
    loops={'LCReset:0': (lambda c: [Le(0, c.K, c.X.args.N)] + [('reset so far', All(0, c.K, lambda i: And(Eq(rlc(c.X.views_of(c.st), c.listColl).next(i), NIL), Eq(rlc(c.X.views_of(c.st), c.listColl).prev(i), NIL))))], lambda c: c.X.args.N - c.K)},
    ensures=lambda o, n, a, r: [('N<=0 gives none', Implies(Le(a.N, 0), n.mem.isnull(r))),
        ('all nodes in no list', Implies(Not(n.mem.isnull(r)), lambda: And(Eq(rlc(n, r).N, a.N), rlc(n, r).wf(), All(0, a.N, lambda i: And(Eq(rlc(n, r).next(i), NIL), Eq(rlc(n, r).prev(i), NIL))))))])
class PLCKind(Kind):
    def make(s, X, st, tag, nullable=False):
        p = KINDS['lc'].make(X, st, tag + '*', True)
        b = X.new_block(st, tag, CT('ptr', CT('struct', name='listCollectionRec')), single=True)
        st.mem[(b.id, ())] = p
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return PLCView(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        v = mem.get(val, ())
        if v.b is not None: d.update(KINDS['lc'].blocks(mem, v, tag + '*'))
        return d
class PLCView:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    lc = property(lambda s: LCView(s.m, s.m.ptr(s.h, ())))
def _cmakep(s, g, rng, nm):
    from cdv.conc import CP
    q = CP(g.alloc(8), CT('ptr', CT('struct', name='listCollectionRec')))
    g.poke(q.addr, 'ptr', 0 if rng.random() < .2 else KINDS['lc'].cmake(g, rng, nm + '*').addr)
    return q
PLCKind.cmake = _cmakep
KINDS['plc'] = PLCKind()
contract('LCFree', [('p', 'plc?')], modular=False, requires=lambda v, a: [Implies(And(Not(v.p.null), Not(v.p.lc.null)), v.p.lc.wf())], modifies=['p', 'p*', 'p*:List'], prop=P, configs=('rel', 'dbg'),
    ensures=lambda o, n, a, r: [('handle cleared', Implies(Not(o.p.null), n.p.lc.null)),
        ('nodes and record are released', Implies(And(Not(o.p.null), Not(o.p.lc.null)), Not(n.mem.alive(o.p.lc.h)), Not(n.mem.alive(o.p.lc.L))))])
