"""tools/record.py [ids]: runs the checks and stores the hashes of all discharged obligations in cdv/proved.txt"""
import os, subprocess, sys, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = '/tmp/cdv-record.txt'
ids = sys.argv[1:] or list(json.load(open(H + '/cdv/props.json')))
if os.path.exists(f): os.unlink(f)
for i in ids: print(subprocess.run([sys.executable, '-m', 'cdv.run', i, 'quick'], cwd=H, env=dict(os.environ, CDV_RECORD=f, VERIF_SEED='1'), capture_output=True, text=True).stdout.strip().splitlines()[-1:], flush=True)
p = H + '/cdv/proved.txt'; old = {}
if sys.argv[1:] and os.path.exists(p): old = dict(l.split() for l in open(p))
old.update(l.split() for l in open(f))
open(p, 'w').write(''.join('%s %s\n' % kv for kv in sorted(old.items())))
print(len(old), 'obligations recorded')
