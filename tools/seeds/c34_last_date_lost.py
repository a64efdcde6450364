PROPERTY='C34'
FILE='skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py'
EDITS=[("range(current_start, len(problem_calendar.resources[r]))","range(current_start, len(problem_calendar.resources[r])-2)")]
NEEDS='a task which breaks a calendar, the resource being there again at the very last date before the horizon only'
BREAKS='the only later date allowed to the task is lost, and the task is not allowed to start later any more'
DEMO='''
import sys, types
for n in ('gurobi', 'gurobipy'):
    if n not in sys.modules:
        k = types.ModuleType(n)
        for a in ('GRB', 'Model', 'LinExpr', 'quicksum', 'Constr', 'GenConstr', 'MQuadExpr', 'QuadExpr', 'Var', 'MLinExpr', 'Env'):
            setattr(k, a, type(a, (), {}))
        sys.modules[n] = k
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModelCalendar, RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp.solver.calendar_solver_iterative import get_ressource_breaks
md = {1: {1: {'duration': 0, 'R': 0}}, 2: {1: {'duration': 1, 'R': 2}}, 3: {1: {'duration': 0, 'R': 0}}}
m = RCPSPModelCalendar(resources={'R': [2, 0, 1, 1, 2, 2]}, non_renewable_resources=[], mode_details=md, successors={1: [2], 2: [3], 3: []}, horizon=5)
s = RCPSPSolution(problem=m, rcpsp_permutation=[0], rcpsp_modes=[1], rcpsp_schedule={1: {'start_time': 0, 'end_time': 0}, 2: {'start_time': 1, 'end_time': 2}, 3: {'start_time': 2, 'end_time': 2}})
_b, c = get_ressource_breaks(m, m, s)
assert c['R'][2] == (0, 4), c
'''
