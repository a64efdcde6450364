PROPERTY='C20'
FILE='skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py'
EDITS=[("                    if resource_usage[res] > self.resources[res][t]:","                    if resource_usage[res] > max(self.resources[res][t:t+1+(t == makespan-1)]):")]
NEEDS='a calendar which is too low at the very last date of the schedule, and high enough just after'
BREAKS='a schedule which overloads a resource at its last date is said to be feasible'
DEMO='''
import sys, types
for n in ('gurobi', 'gurobipy'):
    if n not in sys.modules:
        k = types.ModuleType(n)
        for a in ('GRB', 'Model', 'LinExpr', 'quicksum', 'Constr', 'GenConstr', 'MQuadExpr', 'QuadExpr', 'Var', 'MLinExpr', 'Env'):
            setattr(k, a, type(a, (), {}))
        sys.modules[n] = k
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModelCalendar, RCPSPSolution
md = {1: {1: {'duration': 0, 'R': 0}}, 2: {1: {'duration': 2, 'R': 1}}, 3: {1: {'duration': 0, 'R': 0}}}
def ok(cal):
    m = RCPSPModelCalendar(resources={'R': cal}, non_renewable_resources=[], mode_details=md, successors={1: [2], 2: [3], 3: []}, horizon=5)
    s = RCPSPSolution(problem=m, rcpsp_permutation=[0], rcpsp_modes=[1], rcpsp_schedule={1: {'start_time': 0, 'end_time': 0}, 2: {'start_time': 0, 'end_time': 2}, 3: {'start_time': 2, 'end_time': 2}})
    s.rcpsp_schedule_feasible = True
    return bool(m.satisfy(s))
assert ok([1, 1, 1, 1, 1]) and not ok([0, 1, 1, 1, 1]) and not ok([1, 0, 1, 1, 1]) and not ok([1, 0, 0, 1, 1]) and ok([1, 1, 0, 0, 0])
'''
