PROPERTY='C27'
FILE='skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py'
EDITS=[("""            min_duration = min([self.rcpsp_model.mode_details[node][k]["duration"]
                                for k in self.rcpsp_model.mode_details[node]])""","""            min_duration = self.rcpsp_model.mode_details[node][min(self.rcpsp_model.mode_details[node])]["duration"]""")]
NEEDS='a task whose shortest mode is not its first one'
BREAKS='the critical path is longer than the shortest schedule without resources'
DEMO='''
import sys, types
for n in ('gurobi', 'gurobipy'):
    if n not in sys.modules:
        k = types.ModuleType(n)
        for a in ('GRB', 'Model', 'LinExpr', 'quicksum', 'Constr', 'GenConstr', 'MQuadExpr', 'QuadExpr', 'Var', 'MLinExpr', 'Env'):
            setattr(k, a, type(a, (), {}))
        sys.modules[n] = k
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import MultiModeRCPSPModel
from skdecide.builders.discrete_optimization.rcpsp.solver.cpm import CPM
md = {1: {1: {'duration': 0, 'R': 0}}, 2: {1: {'duration': 4, 'R': 1}, 2: {'duration': 2, 'R': 1}}, 3: {1: {'duration': 3, 'R': 1}}, 4: {1: {'duration': 0, 'R': 0}}}
m = MultiModeRCPSPModel({'R': 2}, [], md, {1: [2, 3], 2: [4], 3: [4], 4: []}, 10)
c = CPM(m)
c.run_classic_cpm()
assert c.map_node[4]._ESD == 3 and c.map_node[2]._LSD == 1, {k: str(v) for k, v in c.map_node.items()}
'''
