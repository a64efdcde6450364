"""C08: SimpleGreedy picks the first action of highest expected immediate reward, for every small table."""
import itertools

from mc.core import expect, expect_eq, THOROUGH
from checks.graphs import ListSpace

from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.solver.simple_greedy import SimpleGreedy


class T:
    """Tables: app[s] -> actions; dist[s, a] -> ((next, p), ...); val[s, a, n] -> number; dep; as_cost."""

    def _setup(self, app, dist, val, dep, as_cost):
        self.app, self.dist, self.val, self.dep, self.as_cost = app, dist, val, dep, as_cost
        return self

    def _st(self, memory):
        return memory[-1] if isinstance(memory, Memory) else memory

    def _ac(self, a):
        return a[0] if isinstance(a, (list, tuple)) else a

    def _get_next_state_distribution(self, memory, action):
        return DiscreteDistribution(list(self.dist[self._st(memory), self._ac(action)]))

    def _get_transition_value(self, memory, action, next_state=None):
        if not self.dep:
            assert next_state is None or True
            n = None
        else:
            n = next_state
        v = self.val[self._st(memory), self._ac(action), n]
        return TransitionValue(cost=-v) if self.as_cost else TransitionValue(reward=v)

    def _is_transition_value_dependent_on_next_state_(self):
        return self.dep

    def _is_terminal(self, state):
        return False

    def _get_action_space_(self):
        return ListSpace(sorted({a for v in self.app.values() for a in v}, key=str))

    def _get_applicable_actions_from(self, memory):
        return ListSpace(list(self.app[self._st(memory)]))

    def _get_initial_state_(self):
        return 's'

    def _get_observation_space_(self):
        return ListSpace(list('stu'))


class Seq(T, Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
          FullyObservable, Rewards):
    pass


class SeqCost(T, Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
              FullyObservable, PositiveCosts):
    pass


class SeqHist(T, Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, History,
              FullyObservable, Rewards):
    pass


class Par(T, Domain, SingleAgent, Parallel, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
          FullyObservable, Rewards):
    pass


class Det(T, Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, Markovian,
          FullyObservable, Rewards):
    def _get_next_state(self, memory, action):
        return self.dist[self._st(memory), self._ac(action)][0][0]


def one(rec, cls, app, dist, val, dep, as_cost, states):
    fac = lambda: cls()._setup(app, dist, val, dep, as_cost)
    solver = cls.solve_with(SimpleGreedy(), fac)
    for s in states:
        best, bi = None, None
        for a in app[s]:
            if dep:
                e = sum(p * val[s, a, n] for n, p in dist[s, a])
            else:
                e = val[s, a, None]
            if best is None or e > best + 1e-12:
                best, bi = e, a
        expect(solver.is_policy_defined_for(s), 'the greedy policy is not defined for %r' % (s,))
        got = solver.get_next_action(s)
        want = [bi] if cls is Par else bi
        expect_eq(got, want, lambda: '%s state %r actions %r outcomes %r rewards %r (dependent on next state: %r, given as '
                  'costs: %r)' % (cls.__name__, s, app[s], dist, val, dep, as_cost))
        expect_eq(solver.sample_action(s), want, 'sampled action')
        expect_eq([(x, p) for x, p in solver.get_next_action_distribution(s).get_values()] if hasattr(
            solver.get_next_action_distribution(s), 'get_values') else None, [(want, 1.0)], 'action distribution')
        rec.trans()
        rec.outcome(got)
    rec.state((cls.__name__, repr(app), repr(dist), repr(val), dep, as_cost))
    rec.trace()


PROBS = [((0, 1.0),), ((1, 1.0),), ((0, 0.5), (1, 0.5)), ((0, 0.25), (1, 0.75)), ((0, 0.875), (1, 0.125)),
         ((0, 0.5), (0, 0.25), (1, 0.25)), ((1, 0.0), (0, 1.0))]
NX = ['t', 'u']


def dep_block(rec, c):
    """two actions, all outcome distributions and all reward tables over the two next states"""
    cls, p0, p1, rs, as_cost = c
    dist = {('s', 'a'): tuple((NX[i], p) for i, p in p0), ('s', 'b'): tuple((NX[i], p) for i, p in p1)}
    for r in itertools.product(rs, repeat=4):
        val = {('s', a, n): r[2 * i + j] for i, a in enumerate('ab') for j, n in enumerate(NX)}
        one(rec, cls, {'s': ['a', 'b']}, dist, val, True, as_cost, ['s'])


def indep_block(rec, c):
    cls, rs, k, as_cost, first = c
    acts = 'abcd'[:k]
    dist = {('s', a): ((NX[i % 2], 1.0),) for i, a in enumerate(acts)}
    for r in itertools.product(rs, repeat=k - 1):
        r = (first,) + r
        val = {('s', a, None): r[i] for i, a in enumerate(acts)}
        for order in (list(acts), list(reversed(acts))):
            one(rec, cls, {'s': order}, dist, val, False, as_cost, ['s'])


def applic_block(rec, c):
    """the applicable actions depend on the state; only those are considered"""
    cls, rs = c
    subsets = [list(x) for n in (1, 2, 3) for x in itertools.permutations('abc', n)]
    for vals in itertools.product(rs, repeat=3):
        for A in subsets:
            for B in (['a'], ['c', 'b']):
                app = {'s': A, 't': B}
                dist = {(s, a): ((n, 1.0),) for s, n in (('s', 't'), ('t', 's')) for a in 'abc'}
                val = {(s, a, n): v * (1 if s == 's' else -1) for s in 'st' for n in ('s', 't', None)
                       for a, v in zip('abc', vals)}
                one(rec, cls, app, dist, val, True, False, ['s', 't'])


def build(ck):
    ck.rule = 'all small tables of applicable actions, outcome distributions and rewards, against the exact argmax'
    rs = (-1, 0, 2) if not THOROUGH else (-3, -1, 0, 0.5, 2)
    ck.scope = '2-4 actions, 2 next states, rewards %r, 7 outcome distributions (with repeated and zero weight entries) per action, 5 domain flavours' % (rs,)
    ck.run([(cls, p0, p1, rs, cls is SeqCost) for cls in (Seq, SeqCost, SeqHist, Par) for p0 in PROBS for p1 in PROBS],
           dep_block, 'dependent on next state', chunk=2)
    ck.run([(cls, rs, k, cls is SeqCost, f) for cls in (Seq, SeqCost, SeqHist, Par) for k in (1, 2, 3, 4) for f in rs],
           indep_block, 'independent of next state', chunk=1)
    ck.run([(Det, rs, k, False, f) for k in (1, 2, 3) for f in rs], indep_block, 'deterministic domain', chunk=1)
    ck.run([(cls, rs) for cls in (Seq, SeqHist, Par, Det)], applic_block, 'applicable actions', chunk=1)
    ck.sample({'actions': ['a', 'b'], 'dist': PROBS[2:4], 'rewards': rs})
