PROPERTY='C03'
FILE='skdecide/builders/domain/dynamics.py'
EDITS=[("""        transition_outcome = self._state_sample(memory, action)
        next_state = transition_outcome.state
        observation""","""        if self.T_memory != Union and self._get_memory_maxlen() is not None and len(memory) < self._get_memory_maxlen():
            memory.extendleft([memory[0]] * (self._get_memory_maxlen() - len(memory)))  # pad short histories
        transition_outcome = self._state_sample(memory, action)
        next_state = transition_outcome.state
        observation""")]
NEEDS='sampling a finite-history domain with an explicit memory that is not full yet'
BREAKS='the memory given by the caller (possibly the domain own memory) is modified by sampling and the transition is drawn from another history'
DEMO='''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.core import *
class MyD(Domain, SingleAgent, Sequential, Simulation, Actions, Initializable, FiniteHistory, FullyObservable, Rewards):
    T_state = int; T_observation = int; T_event = int; T_value = float; T_predicate = bool; T_info = None
    def _get_memory_maxlen_(self): return 3
    def _state_reset(self): return 0
    def _state_sample(self, memory, action): return TransitionOutcome(len(memory))
d = MyD()
m = Memory([7], maxlen=3)
o = d.sample(m, 0)
assert list(m) == [7], m
assert o.observation == 1, o
'''
