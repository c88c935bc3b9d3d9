"""developer driver for the concrete side: python3 -m cdv.ctest mod[,mod] [-DDEBUG] secs [name...]"""
import sys, time, importlib, tempfile, shutil
from . import front, conc, contract as C
def main():
    mods = sys.argv[1].split(','); defs = tuple(a for a in sys.argv[2:] if a.startswith('-D'))
    rest = [a for a in sys.argv[2:] if not a.startswith('-')]
    secs = float(rest[0]) if rest else 1; names = rest[1:]
    for m in mods: importlib.import_module('contracts.' + m)
    prog = front.load_program(defs=defs)
    cfg = 'dbg' if '-DDEBUG' in defs else 'rel'
    tmp = tempfile.mkdtemp(prefix='cdv')
    t0 = time.time(); so = conc.build_lib(tmp, defs); print('built %.1fs' % (time.time() - t0))
    todo = [(k, 0, 10**9, secs) for k, c in list(C.REG.items()) + list(C.SCEN.items()) if cfg in c.configs and (k in names if names else c.module in mods) and ((getattr(c, 'alias', None) or k) in prog.funcs or k in C.SCEN)]
    for t in todo:
        o, v = conc.run_child(so, prog, mods, [t], 1, tmp, 600)
        print(t[0], o.get('cases'), 'rejects', o.get('rejects'), '' if not v else 'VIOLATION %s' % v.get('what'))
        if v:
            for k, x in v.items(): print('   ', k, ':', x)
    shutil.rmtree(tmp)
main()
