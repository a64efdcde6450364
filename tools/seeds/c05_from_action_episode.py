PROPERTY='C05'
FILE='skdecide/utils.py'
EDITS=[("""            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        if verbose:
            logger.debug(f'Episode {i_episode + 1} started with following observation:')
            logger.debug(observation)
        # Run episode
        step = 1

        observations = []
        actions = []
        values = []
""","""            last_state = from_memory[0] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        if verbose:
            logger.debug(f'Episode {i_episode + 1} started with following observation:')
            logger.debug(observation)
        # Run episode
        step = 1

        observations = []
        actions = []
        values = []
""")]
NEEDS='rollout_episode() of a history-based domain from a memory of several states'
BREAKS='the first observation is that of the oldest state of the memory instead of the last one'
DEMO='''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.utils import rollout_episode
class MyD(Domain, SingleAgent, Sequential, Simulation, UnrestrictedActions, Initializable, FiniteHistory, TransformedObservable, Rewards):
    T_state = int; T_observation = int; T_event = int; T_value = float; T_predicate = bool; T_info = None
    def _get_memory_maxlen_(self): return 3
    def _state_reset(self): return 0
    def _state_sample(self, memory, action): return TransitionOutcome(memory[-1] + 1)
    def _get_observation(self, state, action=None): return 10 * state
class S:
    def reset(self): pass
    def sample_action(self, o): return 0
obs, _, _ = rollout_episode(MyD(), S(), from_memory=Memory([1, 2, 3], maxlen=3), max_steps=2, render=False, verbose=False)
assert obs[0] == 30, obs
'''
