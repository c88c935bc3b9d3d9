"""writes MANIFEST.json from cdv/props.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(H + '/cdv/props.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = json.load(open(H + '/tools/not_applicable.json')) if os.path.exists(H + '/tools/not_applicable.json') else {}
checks = []; na = []
for p in props:
    i = p['id']
    if i in P and i not in NA:
        s = P[i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m cdv.run %s quick' % i, 'thorough_cmd': 'python3 -m cdv.run %s thorough' % i,
            'technique': 'contract-based deductive verification of the real C functions (symbolic execution to SMT obligations, z3/cvc5)' , 'level': s.get('level', 'proof'),
            'level_note': s.get('note', '') or 'Every obligation generated from the current source is discharged for all inputs; see DESIGN.md for assumptions.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in /verif/contracts and are bound to the functions of /repo by name; macros are reached through /verif/wrap/wrap.c.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
