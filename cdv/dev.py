"""developer driver: python3 -m cdv.dev contractsmodule [-D..] [function ...]"""
import sys, time, importlib
from . import front, smt, contract as C
def main():
    mods = sys.argv[1].split(','); defs = [a for a in sys.argv[2:] if a.startswith('-')]; names = [a for a in sys.argv[2:] if not a.startswith('-')]
    for m in mods: importlib.import_module('contracts.' + m)
    prog = front.load_program(defs=tuple(d for d in defs if d.startswith('-D') or d.startswith('-U')))
    cfg = 'dbg' if '-DDEBUG' in defs else 'rel'
    tot = 0; bad = 0
    for nm, c in C.REG.items():
        if names and nm not in names or not names and c.module not in mods: continue
        if cfg not in c.configs: continue
        if nm.split('@')[0] not in prog.funcs: print('absent', nm); continue
        t0 = time.time()
        try:
            X = c.verify(prog, {k: v for k, v in C.REG.items() if cfg in v.configs})
        except (front.Unsupported, C.MissingLocal) as e:
            print('UNSUPPORTED', nm, e); bad += 1; continue
        t1 = time.time()
        smt.discharge(X.obls, verbose=True, level=c.level)
        n = len([o for o in X.obls if o.kind != 'reach']); p = len([o for o in X.obls if o.status == 'proved'])
        v = [o for o in X.obls if o.status == 'vacuous']
        print('%-32s %4d/%4d paths %d %s gen %.1fs solve %.1fs %s' % (nm, p, n, X.npaths, 'VACUOUS' if v else '', t1 - t0, time.time() - t1, sorted(X.warn) or ''), flush=True)
        if '-t' in sys.argv:
            for o in sorted(X.obls, key=lambda o: -(o.time or 0))[:6]: print('     %.1fs %s %s %s' % (o.time, o.kind, o.label, o.by))
        if '-dump' in defs:
            k = 0
            for o in X.obls:
                if o.status == 'failed':
                    k += 1
                    open('/tmp/fail%d.smt2' % k, 'w').write(o.st[0] if isinstance(o.st, list) else o.st)
                    print('   dumped', k, o.label, '\n     goal', str(o.goal)[:700])
        tot += n; bad += n - p + len(v)
    print('total', tot, 'bad', bad)
main()
