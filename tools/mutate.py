"""tools/mutate.py PROP N SEED [function ...]: plants N random small faults in the functions a property is anchored in (scratch copy of /repo), and
runs the property's quick check on each; prints the faults that stay unnoticed (candidates: equivalent or missed)."""
import os, random, re, shutil, subprocess, sys, json, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); fns = sys.argv[4:]
src = os.environ.get('CDV_REPO', '/repo'); W = tempfile.mkdtemp(prefix='mut-%s-' % prop); R = W + '/repo'
subprocess.run(['git', 'clone', '-q', src, R], check=True)
from cdv import front
rng = random.Random(seed)
def body(text, f):
    m = re.search(r'^[A-Za-z_][\w \t\*]*\b%s\([^;{]*\)\s*\{' % re.escape(f), text, re.M)
    if not m: return None
    i = m.end(); d = 1
    while d: d += {'{': 1, '}': -1}.get(text[i], 0); i += 1
    return m.end(), i
files = [os.path.join(d, f) for d, _, fs in os.walk(R + '/c') for f in fs if f.endswith('.c')]
where = {}
for p in files:
    t = open(p, newline='').read()
    for f in fns:
        b = body(t, f)
        if b: where[f] = p
print('functions found:', sorted(where), 'missing:', sorted(set(fns) - set(where)), flush=True)
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>=!\-+*/&|])<(?![<=])', '<='), (r'(?<![<>=!\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\+ 1\b', '+ 2'), (r'- 1\b', ''), (r'\+ 1\b', ''), (r'\+\+', '--'),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '1'), (r'gp_GetTwinArc\((\w+), (\w+)\)', r'(\2)'), (r'gp_GetNextArc\(', 'gp_GetPrevArc('), (r'gp_GetPrevArc\(', 'gp_GetNextArc('), (r'gp_GetFirstArc\(', 'gp_GetLastArc('), (r'gp_GetLastArc\(', 'gp_GetFirstArc('),
    (r'\breturn NOTOK;', 'return OK;'), (r'\breturn TRUE;', 'return FALSE;'), (r'\breturn FALSE;', 'return TRUE;'), (r'\+=', '-='), (r'!gp_', 'gp_'), (r'!sp_', 'sp_'), (r'gp_IsNot', 'gp_Is'), (r'1 \^ ', '0 ^ '), (r'\^ 1\b', '^ 0'), (r'break;', ';'), (r'continue;', ';'), (r'/ 2', '/ 1'), (r'\* 2', '* 1'), (r'\|=', '='), (r'\bMIN\(', 'MAX('), (r'\bMAX\(', 'MIN(')]
def stmts(seg):
    return [(m.start(1), m.end(1)) for m in re.finditer(r'(?<=[;{}])\s*\n\s*([A-Za-z_][^;{}]*;)', seg) if not re.match(r'(return|else|case|default|break|int|char|graphP|stackP|long|unsigned|if|while|for|do)\b', m.group(1))]
done = 0; seen = set(); tried = 0
while done < n and tried < 60 * n:
    tried += 1
    f = rng.choice(sorted(where)); p = where[f]; t = open(p, newline='').read(); a, b = body(t, f); seg = t[a:b]
    if rng.random() < .3:
        ss = stmts(seg)
        if not ss: continue
        i, j = rng.choice(ss); new = ';'
    else:
        pat, rep = rng.choice(OPS); ms = [m for m in re.finditer(pat, seg) if '//' not in seg[seg.rfind('\n', 0, m.start()) + 1:m.start()] and seg.rfind('/*', 0, m.start()) <= seg.rfind('*/', 0, m.start()) and seg[:m.start()].count('"') % 2 == 0]
        if not ms: continue
        m = rng.choice(ms); i, j = m.span(); new = m.expand(rep)
    if (f, i, new) in seen or 'gp_Log' in seg[seg.rfind('\n', 0, i):j]: continue
    seen.add((f, i, new)); open(p, 'w', newline='').write(t[:a + i] + new + t[a + j:])
    ln = t[:a + i].count('\n') + 1; old = t[a:][seg.rfind('\n', 0, i) + 1:seg.find('\n', j)].strip(); s2 = seg[:i] + new + seg[j:]; k = i + len(new); nw = s2[s2.rfind('\n', 0, i) + 1:s2.find('\n', k)].strip()
    ok = subprocess.run(['gcc', '-fsyntax-only', '-w', p], capture_output=True).returncode == 0
    if ok:
        done += 1
        try: r = subprocess.run([sys.executable, '-m', 'cdv.run', prop, 'quick'], cwd=H, env=dict(os.environ, CDV_REPO=R, VERIF_SEED='1'), capture_output=True, text=True, timeout=900); out = r.stdout
        except subprocess.TimeoutExpired: out = 'TIMEOUT'
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        tag = 'caught' if v and 'no-failing' not in v[0] else 'caught-proof-only' if v else 'MISSED'
        print('%-18s %s:%d  %s  ->  %s' % (tag, f, ln, old[:110], nw[:110]) + ('' if v or 'ok:' in out else '   ?? ' + out[-200:]), flush=True)
    open(p, 'w', newline='').write(t)
shutil.rmtree(W)
