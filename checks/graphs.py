"""Small weighted graphs as planning domains, and reference shortest paths."""
from skdecide.core import *
from skdecide.domains import DeterministicPlanningDomain

INF = float('inf')


class ListSpace(EnumerableSpace):
    def __init__(self, e):
        self.e = e

    def get_elements(self):
        return self.e


class GraphDom(DeterministicPlanningDomain):
    """succ[s]: list of (target, cost); the action i takes the i-th one. names: state names."""

    def __init__(self, succ, goals, init=0, names=None, acts=None):
        self.succ, self.goals, self.init = succ, goals, init
        self.names = names or list(range(len(succ)))
        self.back = {n: i for i, n in enumerate(self.names)}
        self.acts = acts or list(range(max([len(x) for x in succ] + [1])))
        self.calls = 0

    def _get_next_state(self, memory, action):
        self.calls += 1
        return self.names[self.succ[self.back[memory]][self.acts.index(action)][0]]

    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(cost=self.succ[self.back[memory]][self.acts.index(action)][1])

    def _is_terminal(self, state):
        return self.back[state] in self.goals

    def _get_action_space_(self):
        return ListSpace(self.acts)

    def _get_applicable_actions_from(self, memory):
        return ListSpace([self.acts[i] for i in range(len(self.succ[self.back[memory]]))])

    def _get_goals_(self):
        return ListSpace([self.names[g] for g in self.goals])

    def _get_initial_state_(self):
        return self.names[self.init]

    def _get_observation_space_(self):
        return ListSpace(self.names)


def dist_to(succ, goals):
    d = [0 if s in goals else INF for s in range(len(succ))]
    for _ in succ:
        ch = False
        for s in range(len(succ)):
            if s in goals:
                continue
            for t, c in succ[s]:
                if d[t] + c < d[s]:
                    d[s] = d[t] + c
                    ch = True
        if not ch:
            break
    return d
