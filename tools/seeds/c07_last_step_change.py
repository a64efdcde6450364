PROPERTY='C07'
FILE='skdecide/hub/solver/lrtastar/lrtastar.py'
EDITS=[("""                if (not current_state in self.values) or (self.values[current_state] != best_estimated_cost):
                    self.heuristic_changed = True
                    self.values[current_state] = best_estimated_cost
""","""                self.heuristic_changed = self.values.get(current_state) != best_estimated_cost
                self.values[current_state] = best_estimated_cost
""")]
NEEDS='a trial whose last step changes no value although an earlier one did'
BREAKS='the trials stop before the values have converged, and the policy is not optimal'
DEMO='''
import io, contextlib
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.solver.lrtastar import LRTAstar
G = {0: {0: (1, 1), 1: (2, 2)}, 1: {0: (3, 5)}, 2: {0: (3, 1)}, 3: {0: (3, 0)}}
H = {0: 0, 1: 5, 2: 0, 3: 0}
G = {0: {0: (1, 1), 1: (4, 4)}, 1: {0: (2, 5)}, 2: {0: (3, 1)}, 4: {0: (3, 1)}, 3: {0: (3, 0)}}
H = {0: 0, 1: 0, 2: 1, 3: 0, 4: 1}
class MyD(DeterministicPlanningDomain):
    T_state = int; T_observation = int; T_event = int; T_value = float; T_predicate = bool; T_info = None
    def _get_initial_state_(self): return 0
    def _get_action_space_(self): return ListSpace([0, 1])
    def _get_applicable_actions_from(self, m): return ListSpace(sorted(G[m]))
    def _get_next_state(self, m, a): return G[m][a][0]
    def _get_transition_value(self, m, a, s=None): return TransitionValue(cost=G[m][a][1])
    def _is_terminal(self, s): return s == 3
    def _get_goals_(self): return ImplicitSpace(lambda s: s == 3)
    def _get_observation_space_(self): return ListSpace([0, 1, 2, 3, 4])
s = LRTAstar(from_state=None, heuristic=lambda d, x: H[x])
with contextlib.redirect_stdout(io.StringIO()):
    MyD.solve_with(s, MyD)
assert s.get_next_action(0) == 1, s.get_next_action(0)
'''
