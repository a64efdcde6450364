PROPERTY='C24'
FILE='skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py'
EDITS=[("                p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)","                p = math.exp(fac*(objective-cur_best_objective)/self.temperature_handler.temperature)")]
NEEDS='a search which left its best solution, and a draw between the two probabilities'
BREAKS='moves are accepted by their distance to the best solution, not to the current one'
DEMO='''
import random
from skdecide.builders.discrete_optimization.generic_tools.ls import simulated_annealing as A
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, ModeMutation
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim
class Sol:
    def __init__(self, v): self.v = v
    def copy(self): return Sol(self.v)
class Move:
    def __init__(self, old): self.old = old
    def backtrack_local_move(self, s): return Sol(self.old)
steps = iter([-1, -1, -1])
seen = []
class Mut:
    def mutate(self, s):
        seen.append(s.v)
        return Sol(s.v + next(steps)), Move(s.v)
class Pb:
    def evaluate(self, s): return {'v': s.v}
class Params: sense_function = ModeOptim.MAXIMIZATION
class Temp:
    temperature = 1.
    def next_temperature(self): return 1.
s = object.__new__(A.SimulatedAnnealing)
s.evaluator, s.mutator, s.restart_handler, s.temperature_handler, s.mode_mutation = Pb(), Mut(), RestartHandler(), Temp(), ModeMutation.MUTATE
s.mode_optim, s.store_solution, s.nb_solutions = ModeOptim.MAXIMIZATION, False, 10
s.params_objective_function = Params()
s.aggreg_from_dict_values = lambda d: d['v']
random.random = lambda: 0.2          # exp(-1) = 0.37, exp(-2) = 0.14
s.solve(Sol(0), 3)
assert seen == [0, -1, -2], seen
'''
