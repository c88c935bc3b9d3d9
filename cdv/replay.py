"""python3 -m cdv.replay <replay.json>: run the recorded failing case again on /repo's current tree"""
import sys, json, os, tempfile, shutil, importlib
from . import front, conc
def main():
    d = json.load(open(sys.argv[1]))
    if 'case' not in d: print(json.dumps(d, indent=1)[:4000]); return
    v = d['case']; cfg = v.get('config', 'rel'); defs = ('-DDEBUG',) if cfg == 'dbg' else ()
    for m in d['modules']: importlib.import_module('contracts.' + m)
    tmp = tempfile.mkdtemp(prefix='cdv')
    try:
        prog = front.load_program(defs=defs); so = conc.build_lib(tmp, defs)
        o, w = conc.run_child(so, prog, d['modules'], [(v['name'], v['iter'], 1, 5)], v['seed'], tmp, 100)
        print(json.dumps(w, indent=1, default=str) if w else 'no violation on this tree')
    finally: shutil.rmtree(tmp)
main()
