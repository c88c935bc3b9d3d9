"""Model of stdio input streams (trusted): a file that can be opened is a finite sequence of characters 0..255; fopen may fail;
fgetc yields the characters in order and then EOF; a stream must not be used or closed after fclose."""
from .terms import *
from .terms import T
from .exec import *
from .exec import Block, Ptr, NULLP, MODELS, ALam
from .front import CT, Unsupported
def content(tag): return lambda i: app('file:' + tag, (i,), 'Int')
def flen(tag): return var('file#' + tag)
def opens(tag): return var('opens#' + tag, 'Bool')
def live(X, st, p, n, what):
    if not isinstance(p, Ptr) or p.b is None: X.oblige(st, what + ': the stream exists', 'null', FALSE, n); return False
    if p.b.kind != 'stream': raise Unsupported(what + ' on an unknown stream')
    return X.oblige(st, what + ': the stream is open', 'null', and_(nt(p.null), st.alive(p.b)), n)
def m_fopen(X, st, args, n):
    p = args[0]
    if not isinstance(p, Ptr) or p.b is None: X.oblige(st, 'fopen: there is a name', 'null', FALSE, n); return []
    if not X.oblige(st, 'fopen: there is a name', 'null', nt(p.null), n): return []
    if p.b.kind != 'fname': raise Unsupported('fopen of a computed name')
    tag = p.b.tag; b = Block('stream:' + tag, CT('void'), None, 'stream'); b.ghosts['name'] = tag; X.blocks[b.id] = b
    out = []
    for q, ok in X.branch(st, opens(tag)):
        if not ok: out.append((q, NULLP)); continue
        q.mem[(b.id, '$alive')] = TRUE; q.mem[('$alloc', b.id)] = TRUE; q.mem[(b.id, ('$pos',))] = I(0)
        q.assume(le(0, flen(tag))); out.append((q, Ptr(b, 0)))
    return out
def m_fgetc(X, st, args, n):
    p = args[0]
    if not live(X, st, p, n, 'fgetc'): return []
    tag = p.b.ghosts['name']; k = (p.b.id, ('$pos',)); pos = st.mem[k]
    out = []
    for q, more in X.branch(st, lt(pos, flen(tag))):
        if not more: out.append((q, I(-1))); continue
        c = content(tag)(pos); q.assume(and_(le(0, c), le(c, 255))); q.set(p.b, ('$pos',), add(pos, 1)); out.append((q, c))
    return out
def m_fclose(X, st, args, n):
    p = args[0]
    if not live(X, st, p, n, 'fclose'): return []
    st.set(p.b, '$alive', FALSE); st.mem.pop(('$alloc', p.b.id), None)
    return [(st, I(0))]
MODELS.update({'fopen': m_fopen, 'fgetc': m_fgetc, 'getc': m_fgetc, 'fclose': m_fclose})
