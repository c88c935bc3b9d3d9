"""sanity check of the tool chain (nothing is built in advance: every check regenerates its obligations from /repo)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cdv import front, smt
p = front.load_program(files=['stack.c'])
assert 'sp_New' in p.funcs
assert smt.run_solver([smt.Z3, '-in', '-T:5'], '(assert false)(check-sat)', 5)[0] == 'unsat'
print('ok')
