PROPERTY='C28'
FILE='skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py'
EDITS=[('''                for t1, t2, delta in p_s.start_at_end_plus_offset:
                    string = "constraint s[" + str(t2) + "] >= s[" + str(t1) + "]+d["+str(t1)+"]+"+str(delta)+";\\n"''','''                for t1, t2, delta in p_s.start_at_end_plus_offset:
                    string = "constraint s[" + str(t2) + "] >= s[" + str(t1) + "]+max(d["+str(t1)+"],"+str(delta)+");\\n"''')]
NEEDS='a partial solution which delays a task by an offset after the end of another one'
BREAKS='schedules do not respect the offset'
DEMO='''
import sys, types
for n in ('gurobi', 'gurobipy'):
    if n not in sys.modules:
        k = types.ModuleType(n)
        for a in ('GRB', 'Model', 'LinExpr', 'quicksum', 'Constr', 'GenConstr', 'MQuadExpr', 'QuadExpr', 'Var', 'MLinExpr', 'Env'):
            setattr(k, a, type(a, (), {}))
        sys.modules[n] = k
import re
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import SingleModeRCPSPModel, PartialSolution
from skdecide.builders.discrete_optimization.rcpsp.solver.cp_solvers import CP_RCPSP_MZN, CPSolverName
md = {1: {1: {'duration': 0, 'R': 0}}, 2: {1: {'duration': 2, 'R': 1}}, 3: {1: {'duration': 1, 'R': 1}}, 4: {1: {'duration': 0, 'R': 0}}}
m = SingleModeRCPSPModel({'R': 2}, [], md, {1: [2, 3], 2: [4], 3: [4], 4: []}, 10)
p = PartialSolution()
p.start_at_end_plus_offset = [(2, 3, 1)]
p.start_together, p.start_at_end, p.start_after_nunit = [], [], []
texts = []
import skdecide.builders.discrete_optimization.rcpsp.solver.cp_solvers as C
class Inst:
    def __init__(self, *a): pass
    def __setitem__(self, k, v): pass
    def add_string(self, s): texts.append(s)
C.Instance = Inst
class Fake:
    @staticmethod
    def lookup(*a): return None
C.Solver = Fake
s = CP_RCPSP_MZN(m, cp_solver_name=CPSolverName.CHUFFED)
s.init_model(partial_solution=p)
# the constraint which relates the dates of 2 and 3, as Python
rel = [t for t in texts if 's[3]' in t and 's[2]' in t]
def holds(a, b):
    s, d = {2: a, 3: b}, {2: 2, 3: 1}
    out = True
    for t in rel:
        for c in re.findall(r'constraint ([^;]*);', t):
            if re.fullmatch(r'[sd\\[\\]0-9+>=<(), max-]*', c.replace(' ', '')):
                out = out and eval(c)
    return out
assert rel
for a in range(4):
    for b in range(8):
        assert holds(a, b) == (b >= a + 3), (a, b, rel)
'''
