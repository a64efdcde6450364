PROPERTY='C06'
FILE='skdecide/hub/solver/lazy_astar/lazy_astar.py'
EDITS=[("""                    if qcost <= ncost:
                        continue
""","""                    if qcost <= ncost or h == 0:  # states estimated to be at the goal need not be enqueued again
                        continue
""")]
NEEDS='a goal (or a state of null heuristic) enqueued first through an expensive path and then again through a cheaper one'
BREAKS='the plan is not optimal any more'
DEMO='''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.solver.lazy_astar import LazyAstar
G = {0: {0: (2, 5), 1: (1, 1)}, 1: {0: (2, 1)}, 2: {0: (2, 0)}}
class MyD(DeterministicPlanningDomain):
    T_state = int; T_observation = int; T_event = int; T_value = float; T_predicate = bool; T_info = None
    def _get_initial_state_(self): return 0
    def _get_action_space_(self): return ListSpace([0, 1])
    def _get_applicable_actions_from(self, m): return ListSpace(sorted(G[m]))
    def _get_next_state(self, m, a): return G[m][a][0]
    def _get_transition_value(self, m, a, s=None): return TransitionValue(cost=G[m][a][1])
    def _is_terminal(self, s): return s == 2
    def _get_goals_(self): return ImplicitSpace(lambda s: s == 2)
    def _get_observation_space_(self): return ListSpace([0, 1, 2])
s = LazyAstar(from_state=None)
MyD.solve_with(s, MyD)
assert s.get_next_action(0) == 1
assert s.get_utility(0) == 2
'''
