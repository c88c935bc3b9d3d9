"""Concrete side: run the real functions (compiled from /repo's current tree, ASAN+UBSAN) on generated inputs and evaluate
the same contract text on the memory before and after the call.  Used to find failing inputs for failed obligations (replay)
and as the labelled bounded stand-in for functions outside the verifier's reach."""
import os, sys, subprocess, struct, ctypes, hashlib, random, json, time, signal, pickle, tempfile, shutil, importlib
from concurrent.futures import ThreadPoolExecutor
from . import front, spec
from .front import CT, RANGE, REPO
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FMT = {'int': '<i', 'uint': '<I', 'char': '<b', 'uchar': '<B', 'short': '<h', 'ushort': '<H', 'long': '<q', 'ulong': '<Q', 'bool': '<?', 'ptr': '<Q', 'double': '<d', 'float': '<f'}

# ---------------------------------------------------------------- build
def build_lib(outdir, defs=(), san=True, opt='-O0'):
    os.makedirs(outdir, exist_ok=True)
    srcs = [p for p in front.sources()]+ [os.path.join(HERE, 'wrap', 'alloc.c')]
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if san else []
    ren = ['-Dmain=planarity_main', '-include', os.path.join(HERE, 'wrap', 'pre.h')]
    objs = []
    def one(p):
        o = os.path.join(outdir, os.path.basename(p)[:-2] + '.o')
        al = p.endswith('alloc.c')
        cmd = ['gcc', '-g1', opt, '-w', '-fPIC', '-fkeep-static-functions', '-fno-inline', '-DPACKAGE_VERSION="x"', '-I', os.path.join(REPO, 'c/graphLib')] + san + list(defs) + ([] if al else ren) + ['-c', p, '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise RuntimeError('compile failed: %s\n%s' % (p, r.stderr[:2000]))
        if not al:
            nm = subprocess.run(['nm', o], capture_output=True, text=True).stdout
            st = [l.split()[-1] for l in nm.splitlines() if ' t ' in l and '.' not in l.split()[-1] and not l.split()[-1].startswith('_GLOBAL') and not l.split()[-1].startswith('_sub_')]
            if st: subprocess.run(['objcopy'] + ['--globalize-symbol=' + x for x in st] + ['--weaken-symbol=' + x for x in st] + [o], check=True)
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
    so = os.path.join(outdir, 'libcdv.so')
    r = subprocess.run(['gcc', '-shared', '-o', so] + objs + san + ['-lm', '-Wl,-Bsymbolic'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('link failed ' + r.stderr[:2000])
    return so
def asan_env():
    e = dict(os.environ)
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
    e['LD_PRELOAD'] = os.path.realpath(lib) + ':' + os.path.realpath(ub)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:handle_segv=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:quarantine_size_mb=16'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98:halt_on_error=1'
    e['PYTHONMALLOC'] = 'malloc'; e['CDV_CHILD'] = '1'
    return e

# ---------------------------------------------------------------- memory views
class ConcBad(Exception): pass
class BadVal:
    """result of reading outside a block: every comparison with it is false"""
    def _f(s, *o): return False
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _f
    __hash__ = None
    def _a(s, *o): return s
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __mod__ = __xor__ = __and__ = __or__ = __neg__ = _a
    def __bool__(s): return False
    def __index__(s): raise ConcBad('value read outside the block is used')
    __int__ = __index__
    def __repr__(s): return 'BAD'
BAD = BadVal()
class CP:
    __slots__ = ('addr', 'ty', 'off')
    def __init__(s, addr, ty): s.addr = addr or 0; s.ty = ty
    def __repr__(s): return 'CP(%x,%r)' % (s.addr, s.ty)
class G:
    """generation context: the library under test and its types"""
    def __init__(s, so, prog):
        s.lib = ctypes.CDLL(so); s.prog = prog
        s.lib.cdv_size.restype = ctypes.c_size_t; s.lib.cdv_size.argtypes = [ctypes.c_void_p]
        s.lib.cdv_malloc.restype = ctypes.c_void_p; s.lib.cdv_malloc.argtypes = [ctypes.c_size_t]
        s.lib.cdv_calloc.restype = ctypes.c_void_p; s.lib.cdv_calloc.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
        s.lib.cdv_free.argtypes = [ctypes.c_void_p]; s.lib.cdv_free.restype = None
        s.poison = getattr(ctypes.CDLL(None), '__asan_address_is_poisoned'); s.poison.argtypes = [ctypes.c_void_p]; s.poison.restype = ctypes.c_int
        s.owned = getattr(ctypes.CDLL(None), '__sanitizer_get_ownership'); s.owned.argtypes = [ctypes.c_void_p]; s.owned.restype = ctypes.c_int
        s.lc = {}; s.ac = {}; s.fns = {}; s.hints = []; s.tofree = []; s.log = None; s.trace = []
        s.addr2fn = {}
    def counter(s, name): return ctypes.c_long.in_dll(s.lib, name)
    def access(s, ty, path):
        k = (ty.name if ty.kind == 'struct' else ty.kind if ty.kind != 'ptr' else repr(ty), path)
        r = s.ac.get(k)
        if r is None:
            off, t = s.leaf(ty, path)
            f = struct.Struct(FMT[t.kind])
            r = s.ac[k] = (off, t, f.unpack_from, f.size, s.prog.sizeof(ty), ty)
        return r
    def leaf(s, ty, path):
        k = (repr(ty), path)
        r = s.lc.get(k)
        if r is None:
            off = 0; t = ty
            for p in path:
                if isinstance(p, int): off += p * s.prog.sizeof(t.to); t = t.to
                else:
                    o, t = s.prog.offset(t.name, p); off += o
            r = s.lc[k] = (off, t)
        return r
    def fn(s, name):
        f = s.fns.get(name)
        if f is None:
            f = getattr(s.lib, name)
            d = s.prog.funcs.get(name)
            if d is not None:
                f.argtypes = [ctypes.c_void_p if t.kind == 'ptr' else {'int': ctypes.c_int, 'uint': ctypes.c_uint, 'char': ctypes.c_byte, 'long': ctypes.c_long, 'ulong': ctypes.c_ulong, 'bool': ctypes.c_bool}[t.kind] for _, _, t in d.params]
                k = d.ret.kind
                f.restype = None if k == 'void' else ctypes.c_void_p if k == 'ptr' else {'int': ctypes.c_int, 'uint': ctypes.c_uint, 'char': ctypes.c_byte, 'long': ctypes.c_long, 'ulong': ctypes.c_ulong, 'bool': ctypes.c_bool}[k]
            s.fns[name] = f
        return f
    def call(s, name, *args):
        f = s.fn(name)
        return f(*[x.addr if isinstance(x, CP) else x for x in args])
    def alloc(s, n, fill=0x5a):
        p = s.lib.cdv_malloc(max(n, 1)); ctypes.memset(p, fill, max(n, 1)); s.tofree.append(p)
        return p
    def release(s):
        for p in s.tofree:
            if isinstance(p, tuple):
                if s.owned(p[1]):
                    q = s.lib.cdv_malloc(8); s.poke(q, 'ptr', p[1]); s.call('gp_Free', CP(q, None)); s.lib.cdv_free(q)
            elif s.owned(p): s.lib.cdv_free(p)
        s.tofree = []
    def cstr(s, b):
        if isinstance(b, str): b = b.encode('latin1')
        p = s.lib.cdv_malloc(len(b) + 1); ctypes.memmove(p, b + b'\0', len(b) + 1); s.tofree.append(p)
        return p
    def poke(s, addr, kind, v): ctypes.memmove(addr, struct.pack(FMT[kind], v), struct.calcsize(FMT[kind]))
    def peek(s, addr, kind): return struct.unpack(FMT[kind], ctypes.string_at(addr, struct.calcsize(FMT[kind])))[0]
    def field(s, p, *path):
        off, t = s.leaf(p.ty, path); return s.peek(p.addr + off, t.kind)
    def setfield(s, p, path, v):
        off, t = s.leaf(p.ty, path); s.poke(p.addr + off, t.kind, v)
class CMem:
    """a memory: live, or a snapshot"""
    sym = False
    def __init__(s, g, snap=None): s.g = g; s.snap = snap; s.cache = {}; s.ghosts = {}
    def block(s, a):
        if s.snap is not None:
            b = s.snap.get(a)
            if b is not None: return b
        b = s.cache.get(a)
        if b is None:
            if a == 0: raise ConcBad('NULL read')
            if not s.g.owned(a): raise ConcBad('read of unallocated storage')
            b = s.cache[a] = ctypes.string_at(a, s.g.lib.cdv_size(a))
        return b
    def rd(s, h, path, i=0):
        off, t, unp, n, sz, _ = s.g.access(h.ty, path)
        b = s.snap.get(h.addr) if s.snap is not None else None
        if b is None: b = s.block(h.addr)
        o = i * sz + off
        if o < 0 or o + n > len(b): raise ConcBad('read outside the block (%s index %d)' % (path, i))
        return unp(b, o)[0], t
    def get(s, h, path=(), i=0):
        try: return int(s.rd(h, path, i)[0])
        except ConcBad: return BAD
    def at(s, h, path, i): return s.get(h, path, i)
    def ptr(s, h, path):
        try: v, t = s.rd(h, path)
        except ConcBad: return CP(0, s.g.leaf(h.ty, path)[1].to)
        return CP(v, t.to)
    def length(s, h): return len(s.block(h.addr)) // s.g.prog.sizeof(h.ty)
    def isnull(s, h): return h is None or h.addr == 0
    def same(s, a, b): return a.addr == b.addr
    def alive(s, h): return h.addr != 0 and bool(s.g.owned(h.addr))
    def bytes(s, h): return s.block(h.addr)
    def cstr(s, h): return s.block(h.addr).split(b'\0')[0]
    def funcid(s, h, path): return s.rd(h, path)[0]
    def fid(s, v): return v
SKIP = ('FILE', '_IO_FILE')
def snapshot(g, roots):
    """copy every heap block reachable from the roots: {addr: bytes}, {addr: (tag, type)}"""
    blocks = {}; tags = {}; stk = [(p, tag) for tag, p in roots if isinstance(p, CP)]
    while stk:
        p, tag = stk.pop()
        if p.addr == 0 or p.addr in blocks or not g.owned(p.addr): continue
        if p.ty.kind in ('void', 'func') or p.ty.kind == 'struct' and (p.ty.name in SKIP or not g.prog.structs.get(p.ty.name)): continue
        b = ctypes.string_at(p.addr, g.lib.cdv_size(p.addr))
        blocks[p.addr] = b; tags[p.addr] = (tag, p.ty)
        sz = g.prog.sizeof(p.ty)
        ptrs = [(path, t) for path, t in g.prog.leaves(p.ty) if t.kind == 'ptr' and t.to.kind != 'func']
        for k in range(len(b) // sz if ptrs else 0):
            for path, t in ptrs:
                off, _ = g.leaf(p.ty, path)
                v = struct.unpack_from('<Q', b, k * sz + off)[0]
                sub = tag + ('*' if not path else ':' + '.'.join(str(x) for x in path))
                if v: stk.append((CP(v, t.to), sub))
    return blocks, tags
def frame_check(g, c, blocks, tags):
    for a, b in blocks.items():
        tag, ty = tags[a]
        if not g.owned(a):
            if not c.modmatch(tag, ('$alive',)): return 'frame: %s still allocated' % tag
            continue
        n = g.lib.cdv_size(a)
        now = ctypes.string_at(a, n)
        if now == b: continue
        sz = g.prog.sizeof(ty)
        for path, t in g.prog.leaves(ty):
            if c.modmatch(tag, path): continue
            off, _ = g.leaf(ty, path); w = g.prog.sizeof(t)
            for k in range(min(len(b), n) // sz):
                o = k * sz + off
                if b[o:o + w] != now[o:o + w]: return 'frame: %s[%d]%s unchanged' % (tag, k, ''.join('.%s' % x for x in path))
    return None

class Violation(Exception): pass
class Reject(Exception): pass
def views(c, mem, vals):
    from .contract import KINDS, NS
    d = {'mem': mem}
    for (nm, kd), v in zip(c.params, vals):
        K = KINDS[kd.rstrip('?')]
        w = K.view(mem, v)
        if w is not None: d[nm] = w
    return NS(d)
def describe(g, c, vals):
    d = {}
    for (nm, kd), v in zip(c.params, vals):
        d[nm] = repr(v) if isinstance(v, CP) else v
    return d
def run_case(g, c, rng, log, timeout=10):
    """one concrete execution of contract c; raises Violation / Reject"""
    from .contract import KINDS
    g.tofree = []; g.hints = [0, 1, -1, 2, 3]; g.trace = []
    spec.setmode('conc')
    if c.gen: vals = c.gen(g, rng)
    else:
        vals = []
        from .contract import IntKind
        order = sorted(range(len(c.params)), key=lambda i: isinstance(KINDS[c.params[i][1].rstrip('?')], IntKind))
        tmp = {}
        for i in order:
            nm, kd = c.params[i]
            K = KINDS[kd.rstrip('?')]
            tmp[i] = CP(0, g.prog.funcs[c.alias or c.name].params[i][2].to) if kd.endswith('?') and rng.random() < .15 else K.cmake(g, rng, nm)
        vals = [tmp[i] for i in range(len(c.params))]
    cur = CMem(g)
    try:
        v = views(c, cur, vals); a = c.args(vals)
        for lab, ok in c.pairs2(c.requires(v, a)):
            if not ok: raise Reject(lab)
    except (ConcBad, TypeError) as e: raise Reject(str(e))
    blocks, tags = snapshot(g, [(nm, x) for (nm, kd), x in zip(c.params, vals)])
    old = CMem(g, blocks)
    o = views(c, old, vals)
    log({'contract': c.name, 'args': describe(g, c, vals), 'trace': g.trace})
    failing = c.allocfail and rng.random() < .25
    live0 = g.counter('cdv_live').value
    g.counter('cdv_failed').value = 0; g.counter('cdv_count').value = 0
    g.counter('cdv_fail_at').value = rng.randint(1, 4) if failing else 0
    signal.alarm(timeout)
    r = g.call(c.alias or c.name, *vals)
    signal.alarm(0)
    g.counter('cdv_fail_at').value = 0
    f = g.prog.funcs.get(c.alias or c.name)
    if f.ret.kind == 'ptr': r = CP(r, f.ret.to)
    elif f.ret.kind == 'bool': r = int(r)
    new = CMem(g)
    n = views(c, new, vals)
    try:
        for lab, ok in c.pairs2(c.ensures(o, n, a, r)):
            if not ok: raise Violation('postcondition: ' + lab)
    except (ConcBad, TypeError) as e: raise Violation('postcondition not evaluable: %s' % e)
    fr = frame_check(g, c, blocks, tags)
    if fr: raise Violation(fr)
    if c.noleak and g.counter('cdv_failed').value:
        # a failing call must not keep storage (result is then NULL / NOTOK)
        keep = 0
        if f.ret.kind == 'ptr' and r.addr: keep = None
        if keep is not None and g.counter('cdv_live').value > live0: raise Violation('storage is leaked when an allocation fails')

def child_main():
    """python3 -m cdv.conc <job.pickle>: runs contracts/scenarios, reports progress and violations"""
    job = pickle.load(open(sys.argv[1], 'rb'))
    for m in job['modules']: importlib.import_module('contracts.' + m)
    from .contract import REG, SCEN
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    g = G(job['so'], job['prog'])
    g.counter('cdv_limit').value = 1 << 26
    curf = open(job['cur'], 'w')
    out = {'cases': {}, 'rejects': {}, 'viol': None}
    def log(d):
        curf.seek(0); curf.truncate(); curf.write(json.dumps(d, default=str)); curf.flush()
    t0 = time.time()
    todo = job['todo']          # list of (name, start iteration, max iterations, seconds)
    for name, it0, itn, secs in todo:
        t1 = time.time(); k = it0; n = 0; rej = 0
        base = {'name': name, 'seed': job['seed']}
        while k < it0 + itn and (time.time() - t1 < secs or n == 0 and rej < 2000):
            rng = random.Random('%s:%s:%d' % (job['seed'], name, k))
            d = dict(base, iter=k)
            logk = lambda x, d=d: log(dict(d, **x))
            spec.setmode('conc')
            try:
                if name in SCEN:
                    logk({})
                    g.tofree = []; g.trace = []; g.hints = []
                    signal.alarm(60); SCEN[name].fn(g, rng, logk); signal.alarm(0)
                else:
                    run_case(g, REG[name], rng, logk)
                n += 1
            except Reject: rej += 1
            except Violation as e:
                signal.alarm(0)
                out['viol'] = dict(json.load(open(job['cur'])) if os.path.getsize(job['cur']) else d, what=str(e), iter=k, name=name, seed=job['seed'])
                break
            finally:
                if g.counter('cdv_fail_at').value: g.counter('cdv_fail_at').value = 0
            g.release()
            k += 1
        out['cases'][name] = n; out['rejects'][name] = rej
        if out['viol']: break
    json.dump(out, open(job['out'], 'w'))
    os._exit(3 if out['viol'] else 0)

def run_child(so, prog, modules, todo, seed, tmp, timeout, tag=''):
    """returns (summary dict, violation dict or None)"""
    job = {'so': so, 'prog': prog, 'modules': modules, 'todo': todo, 'seed': seed, 'cur': os.path.join(tmp, 'cur%s' % tag), 'out': os.path.join(tmp, 'out%s' % tag)}
    jf = os.path.join(tmp, 'job%s' % tag)
    pickle.dump(job, open(jf, 'wb'))
    for f in (job['cur'], job['out']):
        if os.path.exists(f): os.unlink(f)
    err = open(os.path.join(tmp, 'err%s' % tag), 'w+b')
    try:
        r = subprocess.run([sys.executable, '-m', 'cdv.conc', jf], cwd=HERE, env=asan_env(), stdout=subprocess.DEVNULL, stderr=err, timeout=timeout).returncode
    except subprocess.TimeoutExpired: r = 'timeout'
    err.seek(0, 2); n = err.tell(); err.seek(max(0, n - 6000)); et = err.read().decode('latin1')
    if os.path.exists(job['out']):
        o = json.load(open(job['out']))
        return o, o['viol']
    cur = {}
    try: cur = json.load(open(job['cur']))
    except Exception: pass
    if r == 'timeout': return {'cases': {}, 'timeout': True}, None
    what = 'does not terminate' if r == -14 else 'sanitizer report / crash (status %s)' % r
    if not cur: raise RuntimeError('concrete runner failed: %s\n%s' % (r, et))
    i = et.find('ERROR: AddressSanitizer'); j = et.find('runtime error')
    k = max(0, min(x for x in (i, j, len(et)) if x >= 0) - 100)
    return {'cases': {}}, dict(cur, what=what, stderr=et[k:k + 3000])
if __name__ == '__main__': 
    from cdv import conc as _c
    _c.child_main()
