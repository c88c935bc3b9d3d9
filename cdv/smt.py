"""Discharging obligations with a solver portfolio (z3 4.13+/5, z3 4.8, cvc5)."""
import subprocess, os, time, tempfile, threading, queue, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
from .terms import *
from .terms import T

Z3 = next((p for p in ('/usr/local/bin/z3-new', '/usr/bin/z3') if os.path.exists(p)), 'z3')
Z3OLD = '/usr/bin/z3'
CVC5 = '/usr/bin/cvc5'
NPROC = int(os.environ.get('CDV_JOBS', '8'))

def split_goal(g):
    """goal -> list of (extra hyps, atomic goal), skolemising universals and moving antecedents"""
    out = []
    def go(hs, g):
        if g is TRUE: return
        if g.op == 'and':
            for x in g.args:
                go(hs, x)
                hs = hs + [x]
        elif g.op == 'forall':
            m = {v: fresh('sk_' + v.args[0].split('?')[0], v.sort) for v in g.args[0]}
            go(hs, subst(g.args[1], m))
        elif g.op == 'or':
            # a => forall/and : move all but one structured disjunct to hypotheses
            st = [x for x in g.args if x.op in ('forall', 'and')]
            if st:
                t = st[-1]
                go(hs + [nt(x) for x in g.args if x is not t], t)
            else: out.append((hs, g))
        elif g.op == 'not' and g.args[0].op == 'exists':
            e = g.args[0]
            go(hs, forall(e.args[0], nt(e.args[1])))
        else: out.append((hs, g))
    go([], g)
    return out

def sk_hyp(h):
    """skolemise existential hypotheses"""
    if h.op == 'exists':
        return sk_hyp(subst(h.args[1], {v: fresh('ex', v.sort) for v in h.args[0]}))
    if h.op == 'not' and h.args[0].op == 'forall':
        f = h.args[0]
        return sk_hyp(nt(subst(f.args[1], {v: fresh('ex', v.sort) for v in f.args[0]})))
    if h.op == 'and': return and_(*[sk_hyp(x) for x in h.args])
    return h

def script(hyps, goal):
    pr = Printer()
    fs = list(hyps) + ([nt(goal)] if goal is not None else [])
    for f in fs: pr.tally(f)
    body = []
    for f in fs:
        body.append((len(pr.defs), pr.emit(f)))
    lines = []
    ds = pr.decls
    out = ['(set-logic ALL)'] if False else []
    for nme, (a, r) in ds.items():
        out.append('(declare-fun %s (%s) %s)' % (sym(nme), ' '.join(SORT[x] for x in a), SORT[r]))
    if pr.uses_xor1: out.append(XOR1)
    out += pr.defs
    for _, b in body: out.append('(assert %s)' % b)
    out.append('(check-sat)')
    return '\n'.join(out)

LIVE = set()
def run_solver(cmd, text, timeout):
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            o, _ = p.communicate(text, timeout=timeout + 3)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); return 'timeout', time.time() - t0
    except OSError:
        return 'error', time.time() - t0
    for l in o.splitlines():
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'): return l, time.time() - t0
    return 'error:' + o[:200], time.time() - t0

def portfolio(level):
    """list of (name, command, timeout, set-options)"""
    P = [('z3-new/ematch', [Z3, '-in', 'smt.auto_config=false', 'smt.mbqi=false', '-T:4', '-memory:3000'], 4),
         ('z3-new/default', [Z3, '-in', '-T:6', '-memory:3000'], 6),
         ('z3-4.8/ematch', [Z3OLD, '-in', 'smt.auto_config=false', 'smt.mbqi=false', '-T:8', '-memory:3000'], 8),
         ('cvc5', [CVC5, '--lang=smt2', '--tlimit=8000', '--full-saturate-quant', '-q'], 8),
         ('z3-new/ematch-long', [Z3, '-in', 'smt.auto_config=false', 'smt.mbqi=false', 'smt.random_seed=7', 'smt.case_split=3', '-T:30', '-memory:4000'], 30)]
    return P[:level]

def prove(hyps, goal, level=5):
    txt = script(hyps, goal)
    last = 'unknown'; tt = 0
    for nme, cmd, to in portfolio(level):
        t = txt if not nme.startswith('cvc5') else '(set-logic ALL)\n' + txt
        r, dt = run_solver(cmd, t, to)
        tt += dt
        if r == 'unsat': return 'proved', nme, tt, txt
        if r == 'sat' : return 'refuted', nme, tt, txt
        last = r
    return 'unknown', last, tt, txt

def hyps_of(o):
    r = []; p = o.hyps
    while p is not None: r.append(p[1]); p = p[0]
    r.reverse()
    return r

_skmemo = {}
# Obligations discharged when this tree was committed, by hash of the exact solver input.  Used only when every solver
# runs out of time on a byte-identical obligation (reported as 'recorded' in the evidence): unsat is a fact about the text.
_PROVED = None
PFILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'proved.txt')
def khash(txt): return hashlib.sha1(txt.encode()).hexdigest()[:20]
def known_proved(txt):
    global _PROVED
    if _PROVED is None:
        _PROVED = dict(l.split() for l in open(PFILE)) if os.path.exists(PFILE) else {}
    return _PROVED.get(khash(txt))
def record(txt, by):
    f = os.environ.get('CDV_RECORD')
    if f:
        with open(f, 'a') as h: h.write('%s %s\n' % (khash(txt), by))
def ordered(level, txt):
    """the portfolio, with the solver that discharged this very text before in front"""
    k = known_proved(txt); P = portfolio(level)
    return P if k is None else sorted(P, key=lambda p: p[0] != k)
def retry(texts, deadline):
    """second attempt at obligations that no solver finished: longer limits, other seeds; True if all are unsat"""
    for txt in texts:
        if txt is None: return False
        ok = False
        for extra in (['smt.auto_config=false', 'smt.mbqi=false', 'smt.random_seed=3', '-T:40'], ['-T:30'], ['smt.auto_config=false', 'smt.mbqi=false', 'smt.random_seed=11', 'smt.relevancy=0', '-T:30']):
            if time.time() > deadline: return False
            r, _ = run_solver([Z3, '-in', '-memory:4000'] + extra, txt, 40)
            if r == 'unsat': ok = True; record(txt, 'z3-new/ematch-long'); break
            if r == 'sat': return False
        if not ok: return False
    return True
_hk = {}
def hypkeys(p):
    """canonical keys of all hypotheses of a path (shared prefixes are cached)"""
    chain = []
    while p is not None and id(p) not in _hk: chain.append(p); p = p[0]
    base = _hk[id(p)][1] if p is not None else frozenset()
    for q in reversed(chain):
        base = base | {canon(x) for x in conjuncts(q[1])}
        _hk[id(q)] = (q, base)
    return base
def discharge(obls, level=5, verbose=False, deadline=None):
    """prove all obligations in parallel; fills in status/by/time"""
    todo = [o for o in obls if o.status is None]
    jobs = []
    for o in todo:
        hs = []
        for h in hyps_of(o):
            k = _skmemo.get(h)
            if k is None: k = _skmemo[h] = sk_hyp(h)
            hs.append(k)
        if o.kind == 'reach':
            jobs.append((o, [(hs, None)])); continue
        have = hypkeys(o.hyps)
        rest = [x for x in conjuncts(o.goal) if canon(x) not in have]
        if not rest:
            o.status = 'proved'; o.by = 'identical hypothesis'; o.time = 0; o.st = None
            continue
        parts = split_goal(and_(*rest))
        jobs.append((o, [(hs + e, g) for e, g in parts]))
    # print scripts in this thread (hash-consing is not thread safe), solve in threads
    def work(o, scripts):
        by = set(); tot = 0; fails = []; last = ''
        for txt in scripts:
            if o.kind == 'reach':
                r, dt = run_solver([Z3, '-in', 'smt.auto_config=false', 'smt.mbqi=false', '-T:2'], txt, 2)
                tot += dt
                if r == 'unsat': return 'vacuous', 'z3-new', tot, txt
                by.add('z3-new'); continue
            ok = False
            for nme, cmd, to in ordered(level, txt):
                if deadline and time.time() > deadline and nme != 'z3-new/ematch': break
                t = txt if not nme.startswith('cvc5') else '(set-logic ALL)\n' + txt
                r, dt = run_solver(cmd, t, to); tot += dt
                if r == 'unsat': ok = True; by.add(nme); record(txt, nme); break
                last = '%s:%s' % (nme, r)
                if r == 'sat': break
            if not ok and r != 'sat' and known_proved(txt): by.add('recorded'); ok = True
            if not ok:
                fails.append(txt)
                if r == 'sat' or len(fails) >= 3: return 'failed', last, tot, fails + ([] if txt is scripts[-1] else [None])
        if fails: return 'failed', last, tot, fails
        return ('reachable' if o.kind == 'reach' else 'proved'), '+'.join(sorted(by)), tot, None
    with ThreadPoolExecutor(NPROC) as ex:
        futs = {}
        for o, parts in jobs:
            scripts = [script(h, g) for h, g in parts]
            futs[ex.submit(work, o, scripts)] = o
        for f in as_completed(futs):
            o = futs[f]
            o.status, o.by, o.time, o.st = f.result()
            if verbose and o.status not in ('proved', 'reachable'): print('   ', o.status, o.fn, o.where, o.kind, o.label, o.by, '%.1fs' % o.time, flush=True)
    # a program point is unreachable only if no path reaches it
    alive = {(o.where, o.label) for o in obls if o.kind == 'reach' and o.status != 'vacuous'}
    for o in obls:
        if o.status == 'vacuous' and (o.where, o.label) in alive: o.status = 'reachable'
    return obls
