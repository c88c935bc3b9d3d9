"""Contracts of lowLevelUtils/stack.c (view: a stack is a finite integer sequence with a capacity)"""
from cdv.spec import *
from cdv.contract import *
from cdv.contract import Contract, Kind, KINDS, contract
from cdv.front import CT
from cdv import terms as t
OK, NOTOK, NIL = 1, 0, 0
INTMAX = 2**31 - 1

class StackView:
    def __init__(s, m, h): s.m = m; s.h = h
    null = property(lambda s: s.m.isnull(s.h))
    size = property(lambda s: s.m.get(s.h, ('size',)))
    cap = property(lambda s: s.m.get(s.h, ('capacity',)))
    S = property(lambda s: s.m.ptr(s.h, ('S',)))
    def at(s, i): return s.m.at(s.S, (), i)
    def len(s): return s.m.length(s.S)
    def wf(s):
        """0 <= size <= capacity, storage holds exactly capacity cells (never NULL unless capacity is 0)"""
        return And(Le(0, s.size, s.cap), Not(s.m.isnull(s.S)), lambda: Le(s.cap, s.len()), Lt(s.cap, INTMAX))
    def same(s, o):
        return And(Eq(s.size, o.size), All(0, s.size, lambda i: Eq(s.at(i), o.at(i))))
class StackKind(Kind):
    def make(s, X, st, tag, nullable=False):
        b = X.new_block(st, tag, CT('struct', name='stack'), single=True, kind='owned')
        ln = t.var(tag + ':S#len'); st.assume(t.le(0, ln))
        S = X.new_block(st, tag + ':S', CT('int'), ln, kind='owned')
        st.mem[(b.id, ('S',))] = Ptr(S, 0)
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return StackView(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        if val.b is not None and mem.st.has(val.b, ('S',)):
            S = mem.st.get(val.b, ('S',))
            if isinstance(S, Ptr) and S.b is not None: d[tag + ':S'] = S.b
        return d
def _cmake(s, g, rng, nm):
    from cdv.conc import CP
    cap = rng.choice([0, 1, 2, 3, 4, 5, 8]); p = CP(g.call('sp_New', cap), CT('struct', name='stack'))
    n = rng.choice([0, cap, rng.randint(0, cap)])
    S = g.field(p, 'S')
    for i in range(n): g.poke(S + 4 * i, 'int', rng.choice([0, 1, -1, 7, rng.randint(-99, 99), 2**31 - 1, -2**31]))
    g.setfield(p, ('size',), n); g.hints += [n, cap, cap - n]
    g.tofree += [S, p.addr]
    g.trace.append('%s: capacity %d, size %d' % (nm, cap, n))
    return p
StackKind.cmake = _cmake
KINDS['stack'] = StackKind()

def seq_unchanged(o, n, upto=None):
    """cells below upto (default: the old size) keep their values"""
    return All(0, o.size if upto is None else upto, lambda i: Eq(n.at(i), o.at(i)), pat=lambda i: [n.at(i)])

Spre = lambda v, a: [('stack is well formed', v.s.wf())]
P = 'C08'
contract('sp_ClearStack', configs=('dbg',), params=[('s', 'stack')], modifies=['s.size'], prop=P,
    ensures=lambda o, n, a, r: [('size is 0', Eq(n.s.size, 0)), ('OK', Eq(r, OK))])
contract('sp_GetCurrentSize', configs=('dbg',), params=[('s', 'stack')], requires=Spre, prop=P, ensures=lambda o, n, a, r: [('size', Eq(r, o.s.size))])
contract('sp_SetCurrentSize', configs=('dbg',), params=[('s', 'stack'), ('k', 'int')], requires=lambda v, a: Spre(v, a) + [Le(0, a.k)], modifies=['s.size'], prop=P,
    ensures=lambda o, n, a, r: [('beyond capacity fails', Implies(Lt(o.s.cap, a.k), Eq(r, NOTOK), Eq(n.s.size, o.s.size))),
        ('within capacity sets size', Implies(Le(a.k, o.s.cap), Eq(r, OK), Eq(n.s.size, a.k)))])
contract('sp_IsEmpty', configs=('dbg',), params=[('s', 'stack')], requires=Spre, prop=P, ensures=lambda o, n, a, r: [Iff(Ne(r, 0), Eq(o.s.size, 0))])
contract('sp_NonEmpty', configs=('dbg',), params=[('s', 'stack')], requires=Spre, prop=P, ensures=lambda o, n, a, r: [Iff(Ne(r, 0), Ne(o.s.size, 0))])
def push_post(k):
    def f(o, n, a, r):
        vals = [a.a] + ([a.b] if k > 1 else [])
        full = Lt(o.s.cap, o.s.size + k)
        return [('no room: fails', Implies(full, Eq(r, NOTOK))), ('no room: size kept', Implies(full, Eq(n.s.size, o.s.size))),
            ('room: succeeds', Implies(Not(full), Eq(r, OK), Eq(n.s.size, o.s.size + k))),
            ('pushed values on top', Implies(Not(full), *[Eq(n.s.at(o.s.size + i), v) for i, v in enumerate(vals)])),
            ('deeper cells unchanged', seq_unchanged(o.s, n.s)), ('well formed', n.s.wf())]
    return f
contract('sp__Push', configs=('dbg',), params=[('s', 'stack'), ('a', 'int')], requires=Spre, modifies=['s.size', 's:S'], prop=P, ensures=push_post(1))
contract('sp__Push2', configs=('dbg',), params=[('s', 'stack'), ('a', 'int'), ('b', 'int')], requires=Spre, modifies=['s.size', 's:S'], prop=P, ensures=push_post(2))
def pop_post(k, outs):
    def f(o, n, a, r):
        under = Lt(o.s.size, k)
        c = [('underflow fails', Implies(under, Eq(r, NOTOK), Eq(n.s.size, o.s.size))),
            ('pop succeeds', Implies(Not(under), Eq(r, OK), Eq(n.s.size, o.s.size - k)))]
        for nm, d in outs:
            w = getattr(n, nm)
            c.append(('%s receives the value %d from the top' % (nm, d), Implies(And(Not(under), Not(w.null)), lambda w=w, d=d: Eq(w.val, o.s.at(o.s.size - d)))))
        return c
    return f
contract('sp__Pop', configs=('dbg',), params=[('s', 'stack'), ('pa', 'pint')], requires=Spre, modifies=['s.size', 'pa'], prop=P, ensures=pop_post(1, [('pa', 1)]))
contract('sp__Pop_Discard', configs=('dbg',), params=[('s', 'stack')], requires=Spre, modifies=['s.size'], prop=P, ensures=pop_post(1, []))
contract('sp__Pop2', configs=('dbg',), params=[('s', 'stack'), ('pa', 'pint'), ('pb', 'pint')], requires=Spre, modifies=['s.size', 'pa', 'pb'], prop=P, ensures=pop_post(2, [('pa', 2), ('pb', 1)]))
contract('sp__Pop2_Discard1', configs=('dbg',), params=[('s', 'stack'), ('pa', 'pint')], requires=Spre, modifies=['s.size', 'pa'], prop=P, ensures=pop_post(2, [('pa', 2)]))
contract('sp__Pop2_Discard', configs=('dbg',), params=[('s', 'stack')], requires=Spre, modifies=['s.size'], prop=P, ensures=pop_post(2, []))
contract('sp_Top', configs=('dbg',), params=[('s', 'stack')], requires=Spre, prop=P,
    ensures=lambda o, n, a, r: [Implies(Eq(o.s.size, 0), Eq(r, NIL)), Implies(Ne(o.s.size, 0), lambda: Eq(r, o.s.at(o.s.size - 1)))])
contract('sp_Get', configs=('dbg',), params=[('s', 'stack'), ('k', 'int')], requires=Spre, prop=P,
    ensures=lambda o, n, a, r: [Implies(Or(Lt(a.k, 0), Le(o.s.size, a.k)), Eq(r, NOTOK)), Implies(In(0, a.k, o.s.size), lambda: Eq(r, o.s.at(a.k)))])
contract('sp_Set', configs=('dbg',), params=[('s', 'stack'), ('k', 'int'), ('val', 'int')], requires=Spre, modifies=['s:S'], prop=P,
    ensures=lambda o, n, a, r: [Implies(Or(Lt(a.k, 0), Le(o.s.size, a.k)), Eq(r, NOTOK)), Implies(In(0, a.k, o.s.size), lambda: And(Eq(r, a.val), Eq(n.s.at(a.k), a.val))),
        All(0, o.s.cap, lambda i: Implies(Or(Ne(i, a.k), Not(In(0, a.k, o.s.size))), Eq(n.s.at(i), o.s.at(i))))])
contract('sp_CopyContent', configs=('rel', 'dbg'), params=[('d', 'stack'), ('s', 'stack')], requires=lambda v, a: [v.d.wf(), v.s.wf()], modifies=['d.size', 'd:S'], prop=P,
    ensures=lambda o, n, a, r: [('too large fails unchanged', Implies(Lt(o.d.cap, o.s.size), Eq(r, NOTOK), Eq(n.d.size, o.d.size), All(0, o.d.size, lambda i: Eq(n.d.at(i), o.d.at(i))))),
        ('contents equal', Implies(Le(o.s.size, o.d.cap), Eq(r, OK), Eq(n.d.size, o.s.size), All(0, o.s.size, lambda i: Eq(n.d.at(i), o.s.at(i))))), n.d.wf()])
class PStackKind(Kind):
    """stackP * : address of a variable holding a stack"""
    def make(s, X, st, tag, nullable=False):
        p = KINDS['stack'].make(X, st, tag + '*', True)
        b = X.new_block(st, tag, CT('ptr', CT('struct', name='stack')), single=True)
        st.mem[(b.id, ())] = p
        return Ptr(b, 0, t.var(tag + '.null', 'Bool') if nullable else t.FALSE)
    def view(s, mem, val): return PStackView(mem, val)
    def blocks(s, mem, val, tag):
        d = {tag: val.b}
        v = mem.get(val, ())
        if v.b is not None: d.update(KINDS['stack'].blocks(mem, v, tag + '*'))
        return d
class PStackView:
    def __init__(s, m, h): s.m = m; s.h = h
    @property
    def null(s): return s.m.isnull(s.h)
    @property
    def s(s): return StackView(s.m, s.m.ptr(s.h, ()))
def _cmakep(s, g, rng, nm):
    from cdv.conc import CP
    q = CP(g.alloc(8), CT('ptr', CT('struct', name='stack')))
    g.poke(q.addr, 'ptr', 0 if rng.random() < .2 else KINDS['stack'].cmake(g, rng, nm + '*').addr)
    return q
PStackKind.cmake = _cmakep
KINDS['pstack'] = PStackKind()
def rstack(n, r): return StackView(n.mem, r)
contract('sp_New', configs=('rel', 'dbg'), params=[('capacity', 'int')], requires=lambda v, a: [Le(0, a.capacity), Lt(a.capacity, INTMAX)], noleak=True, prop=P, modular=False,
    ensures=lambda o, n, a, r: [('empty stack of the capacity', Implies(Not(n.mem.isnull(r)), lambda: And(rstack(n, r).wf(), Eq(rstack(n, r).size, 0), Eq(rstack(n, r).cap, a.capacity))))])
contract('sp_Free', configs=('rel', 'dbg'), params=[('ps', 'pstack?')], requires=lambda v, a: [Implies(And(Not(v.ps.null), Not(v.ps.s.null)), v.ps.s.wf())], modifies=['ps', 'ps*', 'ps*:S'], prop=P, modular=False,
    ensures=lambda o, n, a, r: [('handle cleared', Implies(Not(o.ps.null), n.ps.s.null)),
        ('stack and its storage are released', Implies(And(Not(o.ps.null), Not(o.ps.s.null)), Not(n.mem.alive(o.ps.s.h)), Not(n.mem.alive(o.ps.s.S))))])
def same_content(x, y): return And(Eq(x.size, y.size), All(0, y.size, lambda i: Eq(x.at(i), y.at(i))))
contract('sp_Duplicate', configs=('rel', 'dbg'), params=[('s', 'stack')], requires=Spre, noleak=True, prop=P, modular=False,
    ensures=lambda o, n, a, r: [('equal contents and capacity', Implies(Not(n.mem.isnull(r)), lambda: And(rstack(n, r).wf(), same_content(rstack(n, r), o.s), Eq(rstack(n, r).cap, o.s.cap)))),
        ('storage is not shared', Implies(Not(n.mem.isnull(r)), lambda: And(Not(n.mem.same(rstack(n, r).S, o.s.S)), Not(n.mem.same(r, o.s.h)))))])
contract('sp_Copy', configs=('rel', 'dbg'), params=[('d', 'stack'), ('s', 'stack')], requires=lambda v, a: [v.d.wf(), v.s.wf()], modifies=['d', 'd:S'], noleak=True, prop=P, modular=False,
    ensures=lambda o, n, a, r: [('contents equal', Implies(Eq(r, OK), lambda: And(n.d.wf(), same_content(n.d, o.s)))),
        ('capacity kept when the content fits, else that of the source', Implies(Eq(r, OK), lambda: Eq(n.d.cap, Ite(Le(o.s.size, o.d.cap), o.d.cap, o.s.cap)))),
        ('failure leaves target unchanged', Implies(Ne(r, OK), lambda: And(Eq(r, NOTOK), n.d.wf(), same_content(n.d, o.d), Eq(n.d.cap, o.d.cap)))),
        ('storage is not shared', Not(n.mem.same(n.d.S, n.s.S))), ('target storage is live', n.mem.alive(n.d.S))])

# ---- the function-like macros used in the default (SPEED_MACROS) build, through wrap/wrap.c ----
def room(k): return lambda v, a: Spre(v, a) + [('room for %d more' % k, Le(v.s.size + k, v.s.cap))]
def has(k): return lambda v, a: Spre(v, a) + [('at least %d on the stack' % k, Le(k, v.s.size))]
W = dict(prop=P, configs=('rel',))
contract('w_sp_ClearStack', [('s', 'stack')], requires=Spre, modifies=['s.size'], ensures=lambda o, n, a, r: [('size is 0', Eq(n.s.size, 0))], **W)
contract('w_sp_GetCurrentSize', [('s', 'stack')], requires=Spre, ensures=lambda o, n, a, r: [('size', Eq(r, o.s.size))], **W)
contract('w_sp_GetCapacity', [('s', 'stack')], requires=Spre, ensures=lambda o, n, a, r: [('capacity', Eq(r, o.s.cap))], prop=P, configs=('rel', 'dbg'))
contract('w_sp_SetCurrentSize', [('s', 'stack'), ('k', 'int')], requires=lambda v, a: Spre(v, a) + [Le(0, a.k)], modifies=['s.size'],
    ensures=lambda o, n, a, r: [('beyond capacity fails', Implies(Lt(o.s.cap, a.k), Eq(r, NOTOK), Eq(n.s.size, o.s.size))),
        ('within capacity sets size', Implies(Le(a.k, o.s.cap), Eq(r, OK), Eq(n.s.size, a.k)))], **W)
contract('w_sp_IsEmpty', [('s', 'stack')], requires=Spre, ensures=lambda o, n, a, r: [Iff(Ne(r, 0), Eq(o.s.size, 0))], **W)
contract('w_sp_NonEmpty', [('s', 'stack')], requires=Spre, ensures=lambda o, n, a, r: [Iff(Ne(r, 0), Ne(o.s.size, 0))], **W)
contract('w_sp_Push', [('s', 'stack'), ('a', 'int')], requires=room(1), modifies=['s.size', 's:S'], ensures=push_post(1), **W)
contract('w_sp_Push2', [('s', 'stack'), ('a', 'int'), ('b', 'int')], requires=room(2), modifies=['s.size', 's:S'], ensures=push_post(2), **W)
contract('w_sp_Pop', [('s', 'stack'), ('pa', 'pint')], requires=has(1), modifies=['s.size', 'pa'], ensures=pop_post(1, [('pa', 1)]), **W)
contract('w_sp_Pop_Discard', [('s', 'stack')], requires=has(1), modifies=['s.size'], ensures=pop_post(1, []), **W)
contract('w_sp_Pop2', [('s', 'stack'), ('pa', 'pint'), ('pb', 'pint')], requires=has(2), modifies=['s.size', 'pa', 'pb'], ensures=pop_post(2, [('pa', 2), ('pb', 1)]), **W)
contract('w_sp_Pop2_Discard1', [('s', 'stack'), ('pa', 'pint')], requires=has(2), modifies=['s.size', 'pa'], ensures=pop_post(2, [('pa', 2)]), **W)
contract('w_sp_Pop2_Discard', [('s', 'stack')], requires=has(2), modifies=['s.size'], ensures=pop_post(2, []), **W)
contract('w_sp_Top', [('s', 'stack')], requires=Spre,
    ensures=lambda o, n, a, r: [Implies(Eq(o.s.size, 0), Eq(r, NIL)), Implies(Ne(o.s.size, 0), lambda: Eq(r, o.s.at(o.s.size - 1)))], **W)
contract('w_sp_Get', [('s', 'stack'), ('k', 'int')], requires=lambda v, a: Spre(v, a) + [In(0, a.k, v.s.size)], ensures=lambda o, n, a, r: [Eq(r, o.s.at(a.k))], **W)
contract('w_sp_Set', [('s', 'stack'), ('k', 'int'), ('val', 'int')], requires=lambda v, a: Spre(v, a) + [In(0, a.k, v.s.size)], modifies=['s:S'],
    ensures=lambda o, n, a, r: [Eq(r, a.val), Eq(n.s.at(a.k), a.val), All(0, o.s.cap, lambda i: Implies(Ne(i, a.k), Eq(n.s.at(i), o.s.at(i))))], **W)
