"""python3 -m cdv.run <property> [quick|thorough]  - decides one property on /repo's current tree."""
import sys, os, json, time, importlib, tempfile, shutil, traceback, threading, fnmatch, pickle, signal
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from . import front, smt, conc, contract as C
HERE = conc.HERE
TB = ['clang 18 front end (parsing and typing of /repo sources)', 'cdv: this directory\'s symbolic executor, term simplifier and obligation generator', 'z3 / cvc5 (each obligation: answer unsat of one of them)',
      'C semantics fixed to LP64 two\'s complement as compiled here; distinct allocations do not overlap', 'models of malloc/calloc/realloc/free/memset/memcpy and of stdio output']
_P = {}
def _verify(job):
    cfg, name, level, deadline, ncpu = job
    prog, reg = _P[cfg]
    c = reg[name]
    smt.NPROC = ncpu
    t0 = time.time()
    res = {'name': name, 'config': cfg, 'prop': c.prop, 'obls': [], 'status': 'ok', 'why': '', 'time': 0}
    if (c.alias or name) not in prog.funcs:
        res['status'] = 'absent'; return res
    try:
        X = c.verify_any(prog, reg, level=level or c.level, deadline=deadline)
    except (front.Unsupported, C.MissingLocal) as e:
        res['status'] = 'unsupported'; res['why'] = '%s: %s' % (type(e).__name__, e); res['time'] = time.time() - t0
        return res
    except Exception as e:
        res['status'] = 'error'; res['why'] = traceback.format_exc()[-1500:]; res['time'] = time.time() - t0
        return res
    for o in X.obls:
        res['obls'].append((o.label, o.kind, o.where, o.status, o.by, round(o.time, 3), o.st if o.status not in ('proved', 'reachable') else None))
    res['warn'] = sorted(X.warn); res['assumed'] = sorted(set(X.assumed)); res['inlined'] = sorted(X.inlined); res['used'] = sorted(X.used_contracts); res['externs'] = sorted(X.externs)
    res['time'] = time.time() - t0
    return res

class start_proofs:
    """one forked process per proof job (so that the generated obligations do not depend on what ran before); the forking
    is done by a manager process that is itself forked before any thread is started"""
    def __init__(s, jobs, tmp, width):
        sys.stdout.flush(); sys.stderr.flush()
        s.rc = None
        s.pid = os.fork()
        if s.pid: return
        try:
            os.setpgid(0, 0)
            run = {}; todo = list(enumerate(jobs))
            while todo or run:
                while todo and len(run) < width:
                    i, j = todo.pop(0)
                    p = os.fork()
                    if p == 0:
                        try:
                            r = _verify(j); f = os.path.join(tmp, 'proof%d' % i)
                            pickle.dump(r, open(f + '.tmp', 'wb')); os.rename(f + '.tmp', f)
                        finally: os._exit(0)
                    run[p] = i
                p, _ = os.wait(); run.pop(p, None)
        finally: os._exit(0)
    def poll(s):
        if s.rc is None:
            p, st = os.waitpid(s.pid, os.WNOHANG)
            if p: s.rc = st
        return s.rc
    def kill(s):
        try: os.killpg(s.pid, signal.SIGKILL)
        except OSError: pass
        os.waitpid(s.pid, 0); s.rc = -9
def known():
    out = []
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p):
        for k in json.load(open(p))['findings']: out.append(k)
    return out

def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'cdv.run'] + sys.argv[1:])
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = json.load(open(os.path.join(HERE, 'cdv', 'props.json')))[prop]
    mods = spec['modules']
    for m in mods: importlib.import_module('contracts.' + m)
    cfgs = spec.get('configs', ['rel'])
    tmp = tempfile.mkdtemp(prefix='cdv-%s-' % prop)
    rc = 2
    try: rc = check(prop, tier, seed, t0, spec, mods, cfgs, tmp)
    except Exception:
        traceback.print_exc(); rc = 2
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def inprop(c, prop): return prop == c.prop or isinstance(c.prop, (tuple, list)) and prop in c.prop

def check(prop, tier, seed, t0, spec, mods, cfgs, tmp):
    thorough = tier == 'thorough'
    budget = spec.get('budget', 400) * (2 if thorough else 1)
    deadline = t0 + min(budget, 650)
    libs = {}
    def build(cfg): libs[cfg] = conc.build_lib(os.path.join(tmp, cfg), ('-DDEBUG',) if cfg == 'dbg' else ())
    ths = []; berr = []
    def bt(cfg):
        try: build(cfg)
        except Exception as e: berr.append(e)
    for cfg in cfgs:
        prog = front.load_program(defs=('-DDEBUG',) if cfg == 'dbg' else ())
        _P[cfg] = (prog, {k: v for k, v in C.REG.items() if cfg in v.configs})
    for cfg in cfgs:
        th = threading.Thread(target=bt, args=(cfg,)); th.start(); ths.append(th)
    for th in ths: th.join()
    if berr: raise berr[0]
    # ---- proofs ----
    jobs = [(cfg, k, None, deadline, 2) for cfg in cfgs for k, c in _P[cfg][1].items() if inprop(c, prop) and not c.bounded]
    jobs.sort(key=lambda j: -_P[j[0]][1][j[1]].weight)
    mgr = start_proofs(jobs, tmp, 6) if jobs else None
    # ---- concrete runs (bounded stand-ins and search for failing inputs) ----
    cres = {'cases': {}, 'rejects': {}}
    def concrete(todo, width, tmo, tag):
        """todo: list of (cfg, (name, it0, itn, secs)); returns list of violations"""
        lanes = [[] for _ in range(width)]
        for i, t in enumerate(todo): lanes[i % width].append(t)
        vs = []
        def lane(i, ts):
            for cfg in cfgs:
                xs = [t for c2, t in ts if c2 == cfg]
                if not xs: continue
                o, v = conc.run_child(libs[cfg], _P[cfg][0], mods, xs, seed, tmp, tmo, '%s%d%s' % (tag, i, cfg))
                for k, n in (o.get('cases') or {}).items():
                    cres['cases'][k] = cres['cases'].get(k, 0) + n
                for k, n in (o.get('rejects') or {}).items():
                    cres['rejects'][k] = cres['rejects'].get(k, 0) + n
                if v: vs.append(dict(v, config=cfg))
        with ThreadPoolExecutor(width) as ex: list(ex.map(lambda a: lane(*a), list(enumerate(lanes))))
        return vs
    secs = spec.get('secs', 1.0) * (6 if thorough else 1); ssecs = spec.get('ssecs', 6.0) * (8 if thorough else 1)
    names = []
    for cfg in cfgs:
        for k, s in C.SCEN.items():
            if cfg in s.configs and inprop(s, prop): names += [(cfg, (k, 10**5 * j, 10**9, 1 if s.short else ssecs)) for j in range(1 if s.short else spec.get('lanes', 1))]
    for cfg in cfgs:
        for k, c in _P[cfg][1].items():
            if inprop(c, prop) and c.conc_ok and (c.alias or k) in _P[cfg][0].funcs: names.append((cfg, (k, 0, 10**9, secs)))
    viols = concrete(names, 4 if jobs else 8, 240 * (3 if thorough else 1), 'a') if names else []
    kf = known(); knownseen = {}
    def isknown(v):
        for k in kf:
            if k.get('property') == prop and k.get('status') == 'finding' and fnmatch.fnmatch(v.get('name', ''), k['match']['name']) and fnmatch.fnmatch(v.get('what', ''), k['match']['what']): return k
        return None
    results = []
    if mgr is not None:
        while time.time() < deadline + 90 and mgr.poll() is None: time.sleep(.05)
        if mgr.poll() is None: mgr.kill()
        for i, j in enumerate(jobs):
            try: results.append(pickle.load(open(os.path.join(tmp, 'proof%d' % i), 'rb')))
            except Exception: results.append({'name': j[1], 'config': j[0], 'prop': prop, 'obls': [], 'status': 'unsupported', 'why': 'verification did not finish in time', 'time': 0})
    failed = []; unsup = []; vac = []
    for r in results:
        if r['status'] == 'error': print('ERROR in %s: %s' % (r['name'], r['why']))
        if r['status'] in ('unsupported', 'absent', 'error'): unsup.append(r)
        for o in r['obls']:
            if o[3] == 'failed': failed.append((r, o))
            elif o[3] == 'vacuous': vac.append((r, o))
    # obligations no solver finished: once more with longer limits, on the now idle machine
    again = [(r, o) for r, o in failed if isinstance(o[6], list) and o[6] and ':sat' not in (o[4] or '')]
    if again and len(again) <= 24:
        lim = min(time.time() + 150, deadline + 60)
        with ThreadPoolExecutor(7) as ex:
            ok = list(ex.map(lambda ro: smt.retry(ro[1][6], lim), again))
        for (r, o), y in zip(again, ok):
            if y:
                k = r['obls'].index(o); r['obls'][k] = o[:3] + ('proved', 'z3-new/retry') + o[5:]
                failed = [(q, x) for q, x in failed if x is not o]
    # failed obligations: look harder for a concrete input
    new = [v for v in viols if not isknown(v)]
    if failed and not new:
        base = lambda k: C.REG[k].alias or k
        fb = {(r['config'], base(r['name'])) for r, o in failed}
        fn = sorted({(cfg, k) for cfg in cfgs for k, c in _P[cfg][1].items() if (cfg, base(k)) in fb and inprop(c, prop)})
        todo = [(cfg, (k, 10**6, 10**9, 25.0 if not thorough else 120.0)) for cfg, k in fn if C.REG[k].conc_ok]
        for k, s in C.SCEN.items():
            for cfg in cfgs:
                if cfg in s.configs and inprop(s, prop): todo += [(cfg, (k, 10**6 * (j + 1), 10**9, 25.0 if not thorough else 120.0)) for j in range(max(1, 6 // max(1, len(C.SCEN))))]
        if todo: viols += concrete(todo[:16], 8, 200, 'b')
        new = [v for v in viols if not isknown(v)]
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    rc = 0
    for v in viols:
        k = isknown(v)
        if k: knownseen[k['id']] = k
    for k in kf:
        if k.get('property') == prop and k.get('status') == 'finding': print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    nobl = sum(1 for r in results for o in r['obls'] if o[1] != 'reach')
    ndis = sum(1 for r in results for o in r['obls'] if o[1] != 'reach' and o[3] == 'proved')
    if new:
        v = new[0]
        p = os.path.join(rdir, '%s-%s.json' % (prop, v.get('name')))
        json.dump({'property': prop, 'kind': 'failing input on the real code', 'case': v, 'replay_cmd': 'cd %s && python3 -m cdv.replay %s' % (HERE, p), 'modules': mods,
                   'failed_obligations': [{'function': r['name'], 'config': r['config'], 'obligation': o[0], 'where': o[2]} for r, o in failed][:20]}, open(p, 'w'), indent=1, default=str)
        print('%s: %s (case %s/%s, iteration %s)' % (prop, v.get('what'), v.get('name'), v.get('config'), v.get('iter')))
        for r, o in failed[:10]: print('  failed obligation: %s [%s] %s: %s' % (r['name'], r['config'], o[2], o[0]))
        print('VIOLATION property=%s replay=%s' % (prop, p)); rc = 1
    elif failed:
        r, o = failed[0]
        p = os.path.join(rdir, '%s-%s.json' % (prop, r['name']))
        json.dump({'property': prop, 'kind': 'obligation not discharged', 'function': r['name'], 'config': r['config'], 'obligation': o[0], 'kind_of_obligation': o[1], 'where': o[2], 'verifier_output': o[4], 'smt2': [x for x in o[6] if x] if isinstance(o[6], list) else o[6],
                   'others': [(q['name'], x[0], x[2]) for q, x in failed[1:30]]}, open(p, 'w'), indent=1)
        for q, x in failed[:20]: print('  failed obligation: %s [%s] %s %s: %s (%s)' % (q['name'], q['config'], x[2], x[1], x[0], x[4]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); rc = 1
    elif vac:
        r, o = vac[0]
        p = os.path.join(rdir, '%s-%s.json' % (prop, r['name']))
        json.dump({'property': prop, 'kind': 'contract became vacuous', 'function': r['name'], 'what': o[0], 'where': o[2]}, open(p, 'w'), indent=1)
        print('  vacuous: %s %s %s' % (r['name'], o[2], o[0]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); rc = 1
    for r in unsup: print('  note: %s [%s] not verified this run (%s): bounded concrete check stood in (%d cases)' % (r['name'], r['config'], r['why'] or r['status'], cres['cases'].get(r['name'], 0)))
    # ---- evidence ----
    fu = {}
    for r in results:
        by = {}
        for o in r['obls']:
            if o[1] != 'reach': by[o[4] or '?'] = by.get(o[4] or '?', 0) + 1
        fu['%s[%s]' % (r['name'], r['config'])] = {'status': r['status'], 'obligations': sum(1 for o in r['obls'] if o[1] != 'reach'), 'discharged': sum(1 for o in r['obls'] if o[1] != 'reach' and o[3] == 'proved'),
            'by': by, 'reachability_checks': sum(1 for o in r['obls'] if o[1] == 'reach'), 'solver_s': round(sum(o[5] for o in r['obls']), 2), 'wall_s': round(r['time'], 2),
            'inlined_callees': r.get('inlined', []), 'callee_contracts_used': r.get('used', []), 'warnings': r.get('warn', []), 'assumed_lemmas': r.get('assumed', [])}
    backs = {}
    for f in fu.values():
        for k, n in f['by'].items(): backs[k] = backs.get(k, 0) + n
    bounded = {k: n for k, n in cres['cases'].items()}
    bnames = sorted({k for cfg in cfgs for k, c in _P[cfg][1].items() if inprop(c, prop) and c.bounded})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof'),
        'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'cd /verif && python3 -m cdv.run %s %s' % (prop, tier), 'trusted_base': TB + spec.get('trusted', []),
            'functions_under_contract': len(fu), 'functions': fu, 'by_backend': backs, 'solver_time_s': round(sum(f['solver_s'] for f in fu.values()), 1),
            'not_verified_this_run': [{'function': r['name'], 'config': r['config'], 'why': r['why'] or r['status']} for r in unsup],
            'bounded_not_proved': {'contracts_only_checked_concretely': bnames, 'concrete_executions_per_contract_or_scenario': bounded, 'rule': 'random well-formed inputs generated through the library itself; the contract (or a reference model) is evaluated on the memory before and after each real call; ASAN+UBSAN build'},
            'evaluations': sum(bounded.values())},
        'assumptions': spec.get('assumptions', []) + sorted({'assumed: ' + x for r in results for x in r.get('assumed', [])}), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if rc else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d functions under contract, %d/%d obligations discharged, %d concrete executions, %.1fs' % (prop, 'ok' if rc == 0 else 'VIOLATED', len(fu), ndis, nobl, sum(bounded.values()), time.time() - t0))
    return rc
if __name__ == '__main__': main()
