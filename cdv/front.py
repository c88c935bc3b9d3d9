"""Front end: typed AST of /repo's C sources, obtained from clang on every run."""
import json, os, re, subprocess, sys, hashlib, pickle

REPO = os.environ.get('CDV_REPO', '/repo')
def find_clang():
    for c in ('/usr/bin/clang-18', '/usr/bin/clang', '/usr/lib/llvm-18/bin/clang', 'clang'):
        try:
            if subprocess.run([c, '--version'], capture_output=True).returncode == 0: return c
        except OSError: pass
    raise RuntimeError('no clang')
CLANG = None

class Unsupported(Exception): pass

class CT:
    __slots__ = ('kind', 'to', 'name', 'n', 'ret')
    def __init__(s, kind, to=None, name=None, n=None): s.kind = kind; s.to = to; s.name = name; s.n = n
    def __repr__(s):
        if s.kind == 'ptr': return repr(s.to) + '*'
        if s.kind == 'struct': return 'struct ' + s.name
        if s.kind == 'array': return '%r[%s]' % (s.to, s.n)
        return s.kind
    def isint(s): return s.kind in RANGE
RANGE = {'int': (-2**31, 2**31 - 1), 'uint': (0, 2**32 - 1), 'char': (-128, 127), 'uchar': (0, 255), 'short': (-2**15, 2**15 - 1), 'ushort': (0, 65535),
         'long': (-2**63, 2**63 - 1), 'ulong': (0, 2**64 - 1), 'bool': (0, 1)}
SIZE = {'int': 4, 'uint': 4, 'char': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'long': 8, 'ulong': 8, 'bool': 1, 'ptr': 8, 'double': 8, 'float': 4}
BASE = {'int': 'int', 'signed int': 'int', 'unsigned int': 'uint', 'unsigned': 'uint', 'char': 'char', 'signed char': 'char', 'unsigned char': 'uchar',
        'bool': 'bool', 'short': 'short', 'unsigned short': 'ushort', 'long': 'long', 'unsigned long': 'ulong', 'long long': 'long', 'unsigned long long': 'ulong',
        '_Bool': 'bool', 'void': 'void', 'double': 'double', 'float': 'float', 'size_t': 'ulong', '__builtin_va_list': 'va'}

class N:
    __slots__ = ('k', 'ty', 'kids', 'v', 'line', 'x')
    def __init__(s, k, ty=None, kids=(), v=None, line=0, x=None): s.k = k; s.ty = ty; s.kids = list(kids); s.v = v; s.line = line; s.x = x
    def __repr__(s): return '%s(%s%s)' % (s.k, s.v if s.v is not None else '', ''.join(' ' + repr(c) for c in s.kids))

class Func:
    def __init__(s, name, file, params, body, ret, line, variadic): s.name = name; s.file = file; s.params = params; s.body = body; s.ret = ret; s.line = line

class Unit:
    def __init__(s): s.funcs = {}; s.structs = {}; s.typedefs = {}; s.globals = {}; s.enums = {}

class Program:
    """all translation units"""
    def __init__(s): s.funcs = {}; s.structs = {}; s.typedefs = {}; s.globals = {}; s.protos = {}; s.lay = {}
    def struct(s, name): return s.structs[name]
    def sizeof(s, t): return s.layout(t)[0]
    def layout(s, t):
        if t.kind in SIZE: return SIZE[t.kind], SIZE[t.kind]
        if t.kind == 'array':
            a, b = s.layout(t.to); return a * t.n, b
        if t.kind == 'struct':
            c = s.lay.get(t.name)
            if c is None: c = s.lay[t.name] = s._layout(t)
            return c
        raise Unsupported('sizeof %r' % t)
    def _layout(s, t):
        if t.kind == 'struct':
            off = 0; al = 1
            for f, ft in s.structs[t.name]:
                a, b = s.layout(ft); off = (off + b - 1) // b * b + a; al = max(al, b)
            return (off + al - 1) // al * al, al
        raise Unsupported('sizeof %r' % t)
    def offset(s, name, field):
        off = 0
        for f, ft in s.structs[name]:
            a, b = s.layout(ft); off = (off + b - 1) // b * b
            if f == field: return off, ft
            off += a
        raise KeyError(field)
    def leaves(s, t, pre=()):
        """leaf fields of a type as [(path, type)]"""
        if t.kind == 'struct':
            r = []
            for f, ft in s.structs[t.name]: r += s.leaves(ft, pre + (f,))
            return r
        if t.kind == 'array' and t.n <= 8 and pre:
            r = []
            for i in range(t.n): r += s.leaves(t.to, pre + (i,))
            return r
        return [(pre, t)]

class Loader:
    def __init__(s, prog): s.p = prog
    def ptype(s, q):
        q = q.strip()
        q = re.sub(r'\b(const|volatile|restrict|extern|static|register)\b', '', q).strip()
        q = re.sub(r'\s+', ' ', q)
        if q.endswith(')') and '(' in q:
            if '(*)' in q: return CT('ptr', CT('func', name=q))
            return CT('func', name=q)
        m = re.match(r'^(.*?)\s*((\[\d*\])+)$', q)
        if m:
            t = s.ptype(m.group(1))
            for d in reversed(re.findall(r'\[(\d*)\]', m.group(2))): t = CT('array', t, n=int(d or 0))
            return t
        if q.endswith('*'): return CT('ptr', s.ptype(q[:-1]))
        if q in BASE: return CT(BASE[q])
        if q.startswith('struct ') or q.startswith('union '): return CT('struct', name=q.split(' ', 1)[1])
        if q.startswith('enum '): return CT('int')
        if q in s.td:
            return s.ptype(s.td[q])
        return CT('struct', name=q)
    def ty(s, n):
        t = n.get('type')
        if not t: return None
        q = t.get('desugaredQualType') or t['qualType']
        return s.ptype(q)
    def line(s, n):
        r = n.get('range', {}).get('begin', {})
        if 'expansionLoc' in r: r = r['expansionLoc']
        o = r.get('offset')
        if o is None: return 0
        import bisect
        return bisect.bisect_right(s.lines, o)
    def load(s, path, defs=(), extra=()):
        global CLANG
        if CLANG is None: CLANG = find_clang()
        s.path = path
        src = open(path, 'rb').read()
        s.lines = [0] + [m.end() for m in re.finditer(b'\n', src)]
        cmd = [CLANG, '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-DHAVE_CONFIG_H=0', '-D__NO_CTYPE', '-DPACKAGE_VERSION="x"', '-I', os.path.join(REPO, 'c/graphLib')] + list(defs) + [path]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode != 0: raise Unsupported('clang failed on %s: %s' % (path, r.stderr.decode()[:500]))
        d = json.loads(r.stdout)
        s.td = {}
        s.recs = {}
        s.file = os.path.basename(path)
        for x in d['inner']:
            k = x['kind']
            if k == 'TypedefDecl':
                q = x['type'].get('desugaredQualType') or x['type']['qualType']
                nm = x['name']
                # typedef of anonymous struct
                if q != nm and not (q.startswith('struct ') and q.split(' ', 1)[1] == nm): s.td.setdefault(nm, q)
                m = re.match(r'^struct \(unnamed.*\)$|^struct \(anonymous.*\)$', q)
                if m or q == nm or 'unnamed' in q or 'anonymous' in q:
                    s.td.pop(nm, None)
                    if s.lastanon: s.setstruct(nm, s.lastanon)
            elif k == 'RecordDecl' and x.get('completeDefinition'):
                if x.get('name'): s.setstruct(x['name'], x); s.lastanon = x
                else: s.lastanon = x
            elif k == 'EnumDecl': pass
            elif k == 'VarDecl':
                g = dict(ty=s.ty(x), name=x['name'], init=None, file=s.file, static=x.get('storageClass'))
                if x.get('inner') and 'init' in x: g['init'] = s.expr([c for c in x['inner'] if 'Comment' not in c['kind']][-1])
                old = s.p.globals.get(x['name'])
                if old is None or g['init'] is not None: s.p.globals[x['name']] = g
            elif k == 'FunctionDecl':
                inner = x.get('inner', [])
                body = [c for c in inner if c['kind'] == 'CompoundStmt']
                s.p.protos[x['name']] = s.ptype(x['type']['qualType'].split('(')[0])
                if body:
                    params = [(c.get('name', '_p%d' % i), c['id'], s.ty(c)) for i, c in enumerate(y for y in inner if y['kind'] == 'ParmVarDecl')]
                    s.loops = 0
                    try:
                        b = s.stmt(body[0])
                        f = Func(x['name'], s.file, params, b, s.ptype(x['type']['qualType'].split('(')[0]), s.line(x), x.get('variadic'))
                    except Unsupported as e:
                        f = Func(x['name'], s.file, params, None, None, 0, False); f.err = str(e)
                    f.nloops = s.loops
                    s.p.funcs[x['name']] = f
    lastanon = None
    def setstruct(s, name, rec):
        if name in s.p.structs: return
        fs = []
        s.p.structs[name] = fs
        for c in rec.get('inner', []):
            if c['kind'] == 'FieldDecl': fs.append((c['name'], s.ty(c)))
    # ---------- statements ----------
    def kids(s, n): return [c for c in n.get('inner', []) if c and c.get('kind') and not c['kind'].endswith('Comment')]
    def stmt(s, n):
        k = n.get('kind'); L = s.line(n)
        if k == 'CompoundStmt': return N('block', kids=[s.stmt(c) for c in s.kids(n)], line=L)
        if k == 'NullStmt': return N('block', line=L)
        if k == 'DeclStmt':
            out = []
            for c in s.kids(n):
                if c['kind'] == 'VarDecl':
                    init = None
                    if 'init' in c: init = s.expr([y for y in s.kids(c)][-1])
                    out.append(N('decl', ty=s.ty(c), kids=[init] if init else [], v=c['name'], x=(c['id'], c.get('storageClass')), line=L))
                elif c['kind'] in ('TypedefDecl', 'RecordDecl'): pass
                else: raise Unsupported('decl ' + c['kind'])
            return N('block', kids=out, line=L, x='decls')
        if k == 'IfStmt':
            c = s.kids(n)
            return N('if', kids=[s.expr(c[0]), s.stmt(c[1])] + ([s.stmt(c[2])] if len(c) > 2 else []), line=L)
        if k == 'WhileStmt':
            o = s.loops; s.loops += 1
            c = s.kids(n)
            return N('loop', kids=[None, s.expr(c[0]), s.stmt(c[1]), None], v='while', x=o, line=L)
        if k == 'DoStmt':
            o = s.loops; s.loops += 1
            c = s.kids(n)
            return N('loop', kids=[None, s.expr(c[1]), s.stmt(c[0]), None], v='do', x=o, line=L)
        if k == 'ForStmt':
            o = s.loops; s.loops += 1
            c = n['inner']
            g = lambda x: x if x and x.get('kind') else None
            init, _, cond, inc, body = [g(x) for x in c]
            ini = None
            if init: ini = s.stmt(init)
            return N('loop', kids=[ini, s.expr(cond) if cond else None, s.stmt(body), s.expr(inc) if inc else None], v='for', x=o, line=L)
        if k == 'ReturnStmt':
            c = s.kids(n)
            return N('return', kids=[s.expr(c[0])] if c else [], line=L)
        if k == 'BreakStmt': return N('break', line=L)
        if k == 'ContinueStmt': return N('continue', line=L)
        if k == 'SwitchStmt':
            c = s.kids(n)
            return N('switch', kids=[s.expr(c[0]), s.stmt(c[1])], line=L)
        if k == 'CaseStmt':
            c = s.kids(n)
            return N('case', kids=[s.expr(c[0]), s.stmt(c[1])], line=L)
        if k == 'DefaultStmt': return N('default', kids=[s.stmt(s.kids(n)[0])], line=L)
        if k in ('GotoStmt', 'LabelStmt', 'GCCAsmStmt'): raise Unsupported(k)
        return N('expr', kids=[s.expr(n)], line=L)
    # ---------- expressions ----------
    def expr(s, n):
        k = n['kind']; L = s.line(n); c = s.kids(n)
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups'): return s.expr(c[0])
        t = s.ty(n)
        if k == 'IntegerLiteral': return N('int', t, v=int(n['value']), line=L)
        if k == 'CharacterLiteral': return N('int', t, v=int(n['value']), line=L)
        if k == 'FloatingLiteral': return N('float', t, v=n['value'], line=L)
        if k == 'StringLiteral': return N('str', t, v=json.loads(n['value']) if n['value'].startswith('"') else n['value'], line=L)
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] == 'EnumConstantDecl': raise Unsupported('enum')
            if r['kind'] == 'FunctionDecl': return N('func', t, v=r['name'], line=L)
            return N('var', t, v=r['name'], x=r['id'], line=L)
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            ck = n['castKind']
            if ck == 'LValueToRValue': return N('load', t, [s.expr(c[0])], line=L)
            return N('cast', t, [s.expr(c[0])], v=ck, line=L, x=(k == 'CStyleCastExpr'))
        if k == 'MemberExpr': return N('member', t, [s.expr(c[0])], v=n['name'], x=n.get('isArrow', False), line=L)
        if k == 'ArraySubscriptExpr': return N('index', t, [s.expr(c[0]), s.expr(c[1])], line=L)
        if k == 'BinaryOperator': return N('bin', t, [s.expr(c[0]), s.expr(c[1])], v=n['opcode'], line=L)
        if k == 'CompoundAssignOperator':
            ct = n.get('computeResultType'); q = (ct.get('desugaredQualType') or ct['qualType']) if ct else None
            return N('cassign', t, [s.expr(c[0]), s.expr(c[1])], v=n['opcode'][:-1], x=s.ptype(q) if q else t, line=L)
        if k == 'UnaryOperator': return N('un', t, [s.expr(c[0])], v=n['opcode'], x=n.get('isPostfix'), line=L)
        if k == 'ConditionalOperator': return N('cond', t, [s.expr(y) for y in c], line=L)
        if k == 'CallExpr': return N('call', t, [s.expr(y) for y in c], line=L)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n.get('name') != 'sizeof': raise Unsupported(n.get('name'))
            at = n.get('argType')
            ty = s.ptype(at.get('desugaredQualType') or at['qualType']) if at else s.expr(c[0]).ty
            return N('sizeof', t, v=ty, line=L)
        if k == 'InitListExpr': return N('init', t, [s.expr(y) for y in c], line=L)
        if k == 'ImplicitValueInitExpr': return N('zero', t, line=L)
        return N('unsupported', t, v=k, line=L)

WRAP = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'wrap', 'wrap.c')
LIBDIRS = ['c/graphLib', 'c/graphLib/lowLevelUtils', 'c/graphLib/io', 'c/graphLib/extensionSystem', 'c/graphLib/planarityRelated', 'c/graphLib/homeomorphSearch', 'c/planarityApp']
def sources(sub=None):
    out = []
    for d in LIBDIRS:
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c') and (sub is None or f in sub): out.append(os.path.join(p, f))
    if sub is None or 'wrap.c' in sub: out.append(WRAP)
    return out
def _one(a):
    path, defs = a
    p = Program()
    Loader(p).load(path, defs)
    return p
def load_program(files=None, defs=()):
    """files: basenames (None = all of graphLib and planarityApp)"""
    prog = Program()
    fs = sources(files)
    if len(fs) > 2:
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(min(8, len(fs))) as ex: ps = list(ex.map(_one, [(f, defs) for f in fs]))
    else: ps = [_one((f, defs)) for f in fs]
    for p in ps:
        prog.funcs.update({k: v for k, v in p.funcs.items()})
        for k, v in p.structs.items():
            if k not in prog.structs or not prog.structs[k]: prog.structs[k] = v
        for k, v in p.globals.items():
            if k not in prog.globals or v['init'] is not None: prog.globals[k] = v
        prog.protos.update(p.protos)
    return prog
