PROPERTY='C31'
FILE='skdecide/builders/discrete_optimization/generic_tools/lns_mip.py'
EDITS=[("""            if skip_first_iteration and iteration == 0:
                store_lns = result_store""","""            if store_lns is None or fit > store_lns.get_best_solution_fit()[1]:
                store_lns = result_store""")]
NEEDS='an iteration which improves the best solution'
BREAKS='solutions found before the improvement are lost, the initial one among them'
DEMO='''
import sys, types
for n in ('gurobi', 'gurobipy'):
    if n not in sys.modules:
        k = types.ModuleType(n)
        for a in ('GRB', 'Model', 'LinExpr', 'quicksum', 'Constr', 'GenConstr', 'MQuadExpr', 'QuadExpr', 'Var', 'MLinExpr', 'Env'):
            setattr(k, a, type(a, (), {}))
        sys.modules[n] = k
from skdecide.builders.discrete_optimization.generic_tools import lns_mip as L
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim
class Sol:
    def __init__(self, v): self.v = v
    def copy(self): return Sol(self.v)
class Params: sense_function = ModeOptim.MAXIMIZATION
seq = iter([5, 7, 6])
store = lambda v: ResultStorage(list_solution_fits=[(Sol(v), v)], mode_optim=ModeOptim.MAXIMIZATION)
class Solver:
    def init_model(self, **k): pass
    def solve(self, **k): return store(next(seq))
class Init:
    def get_starting_solution(self): return store(3)
class Handler:
    def adding_constraint_from_results_store(self, milp_solver, result_storage): return {}
    def remove_constraints_from_previous_iteration(self, milp_solver, previous_constraints): pass
l = object.__new__(L.LNS_MILP)
l.milp_solver, l.initial_solution_provider, l.constraint_handler = Solver(), Init(), Handler()
l.post_process_solution, l.params_objective_function = L.TrivialPostProcessSolution(), Params()
got = sorted(f for _s, f in l.solve_lns(None, 3).list_solution_fits)
assert got == [3, 5, 6, 7], got
'''
