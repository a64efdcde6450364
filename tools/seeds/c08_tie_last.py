PROPERTY='C08'
FILE='skdecide/hub/solver/simple_greedy/simple_greedy.py'
EDITS=[("""                next_state_prob = domain.get_next_state_distribution(memory, [a]).get_values()
                expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
""","""                next_state_prob = dict(domain.get_next_state_distribution(memory, [a]).get_values())
                expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward
                                     for s, p in next_state_prob.items())
""")]
NEEDS='a next state distribution listing the same state more than once'
BREAKS='only the last probability of a repeated next state counts in the expected reward'
DEMO='''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.solver.simple_greedy import SimpleGreedy
class MyD(MDPDomain):
    T_state = int; T_observation = int; T_event = int; T_value = float; T_predicate = bool; T_info = None
    def _get_initial_state_distribution_(self): return SingleValueDistribution(0)
    def _get_action_space_(self): return ListSpace([0, 1])
    def _get_applicable_actions_from(self, m): return ListSpace([0, 1])
    def _get_next_state_distribution(self, m, a):
        return SingleValueDistribution(1) if a == 0 else DiscreteDistribution([(2, 0.5), (2, 0.5)])
    def _get_transition_value(self, m, a, s=None): return TransitionValue(reward=3 if s == 1 else 4)
    def _is_terminal(self, s): return False
    def _get_observation_space_(self): return ListSpace([0, 1, 2])
s = SimpleGreedy()
MyD.solve_with(s, MyD)
assert s.get_next_action(0) == 1
'''
