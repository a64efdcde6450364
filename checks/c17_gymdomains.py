"""C17: Gym environments wrapped as domains (and domains wrapped as Gym environments) keep their dynamics."""
import enum, itertools, struct, bisect
from collections import OrderedDict
from dataclasses import dataclass
from typing import NamedTuple
import numpy as np
import gym
import gym.spaces as gs
from mc.core import expect, expect_eq, THOROUGH
import struct
from mc import nondet
from checks.c16_spaces import key, own
from skdecide import Domain, DeterministicPlanningDomain, TransitionValue as Value, TransitionOutcome, Space
from skdecide.builders.domain import UnrestrictedActions, Renderable, SingleAgent, Sequential, Environment, Initializable, Markovian, FullyObservable, Rewards
from skdecide.hub.domain.gym import (GymDomain, GymDomainHashable, DeterministicInitializedGymDomain, DeterministicGymDomain, GymPlanningDomain,
                                     GymWidthDomain, GymDiscreteActionDomain, AsGymEnv)
from skdecide.hub.space.gym import EnumSpace, ListSpace, DataSpace, DiscreteSpace, BoxSpace, MultiDiscreteSpace

F = np.float32
OBS = {
    'discrete': (lambda: gs.Discrete(3), lambda i: i),
    'box': (lambda: gs.Box(F(-5), F(5), (2,), F), lambda i: np.array([i / 2, -i], F)),
    'box 2x2': (lambda: gs.Box(F(-5), F(5), (2, 2), F), lambda i: np.array([[i / 2, -i], [0, i]], F)),
    'box int': (lambda: gs.Box(-5, 5, (1,), np.int64), lambda i: np.array([i])),
    'multidiscrete': (lambda: gs.MultiDiscrete([2, 2]), lambda i: np.array([i // 2, i % 2])),
    'multibinary': (lambda: gs.MultiBinary(2), lambda i: np.array([i // 2, i % 2], np.int8)),
    'tuple': (lambda: gs.Tuple([gs.Discrete(3), gs.Box(F(-5), F(5), (1,), F)]), lambda i: (i, np.array([-i], F))),
    'dict': (lambda: gs.Dict({'a': gs.Discrete(3), 'b': gs.MultiDiscrete([2, 2])}), lambda i: OrderedDict(a=i, b=np.array([i // 2, i % 2]))),
    'nested': (lambda: gs.Tuple([gs.Dict({'a': gs.Discrete(3)}), gs.MultiBinary(2)]), lambda i: (OrderedDict(a=i), np.array([i // 2, i % 2], np.int8))),
}


class Auto(gym.Env):
    """A finite automaton with a hidden counter; logs every call."""

    def __init__(self, T, done, obs, hidden=True, log=None, random_reset=False):
        mk, self.enc = OBS[obs]
        self.observation_space, self.action_space = mk(), gs.Discrete(2)
        self.T, self.dn, self.hidden, self.log, self.random_reset = T, done, hidden, log, random_reset
        self.s = self.k = 0

    def __deepcopy__(self, memo):
        n = Auto.__new__(Auto)
        n.__dict__.update(self.__dict__)  # everything but s and k is constant
        return n

    def reset(self):
        self.s, self.k = (nondet.choose(3) if self.random_reset else 0), 0
        if self.log is not None:
            self.log.append(('reset',))
        return self.enc(self.s)

    def step(self, a):
        if self.log is not None:
            self.log.append(('step', a))
        (self.s, self.k), r, d, info = auto(self.T, self.dn, self.hidden, (self.s, self.k), a)
        return self.enc(self.s), r, d, info

    def render(self, mode='human'):
        if self.log is not None:
            self.log.append(('render', mode))
        return 'image %s' % mode

    def close(self):
        if self.log is not None:
            self.log.append(('close',))
        return 'closed'


def auto(T, dn, hidden, st, a):
    s, k = st
    s2 = (T[2 * s + a] + (k if hidden else 0)) % 3
    k2 = (k + a) % 2
    return (s2, k2), 0.5 + s + 3 * a + 7 * k, (s2, a) in dn, {'was': (s, k, a)}


GET = lambda env: (env.s, env.k)


def SET(env, st):
    env.s, env.k = st


def run_ref(T, dn, hidden, seq, start=(0, 0)):
    """[(state, reward, done, info)] of a sequence of actions"""
    st, out = start, []
    for a in seq:
        st, r, d, info = auto(T, dn, hidden, st, a)
        out.append((st, r, d, info))
    return out


TABLES = [(1, 2, 2, 0, 0, 1), (0, 1, 1, 2, 2, 0), (0, 1, 2, 2, 1, 0), (2, 1, 0, 0, 0, 2), (1, 1, 1, 2, 2, 2), (0, 0, 0, 1, 1, 1)]
DONES = [frozenset(), frozenset([(2, 0), (2, 1)]), frozenset([(1, 1), (0, 0)])]


def check_spaces(d, env, obs, label):
    a, o = d.get_action_space(), d.get_observation_space()
    expect(a.unwrapped() is env.action_space, label + ': action space')
    expect(o.unwrapped() == OBS[obs][0](), label + ': observation space')
    expect([a.contains(i) for i in (-1, 0, 1, 2)] == [False, True, True, False], label + ': membership in the action space')


def val(v):
    return (v.reward, v.cost)


def plain(rec, c):
    obs, cls, T, dn = c
    enc = OBS[obs][1]
    hashable = cls is GymDomainHashable
    raw = (lambda o: o._state) if hashable else (lambda o: o)
    log = []
    env = Auto(T, dn, obs, log=log)
    d = cls(env)
    lab = '%s (%s observations)' % (cls.__name__, obs)
    check_spaces(d, env, obs, lab)
    expect(d.unwrapped() is env, lab + ': unwrapped')
    for s1 in itertools.product((0, 1), repeat=3):
        for s2 in ((), (1, 0), s1):
            for seq in (s1, s2):
                rec.trace()
                del log[:]
                o = d.reset()
                expect_eq(log, [('reset',)], lab + ': calls on reset')
                expect(key(raw(o)) == key(enc(0)), lambda: '%s: initial observation %r' % (lab, o))
                for i, (st, r, dn_, info) in enumerate(run_ref(T, dn, True, seq)):
                    del log[:]
                    out = d.step(seq[i])
                    rec.trans()
                    at = lambda: '%s: table %r, after %r' % (lab, T, seq[:i + 1])
                    expect_eq(log, [('step', seq[i])], lambda: at() + ': calls')
                    expect(key(raw(out.observation)) == key(enc(st[0])), lambda: '%s: observation %r instead of %r' % (at(), out.observation, enc(st[0])))
                    expect_eq((val(out.value), bool(out.termination), out.info), ((r, -r), dn_, info), at)
                    expect(d.get_observation_space().contains(raw(out.observation)), lambda: at() + ': observation out of the space')
    del log[:]
    expect_eq((d.render(), d.render(mode='rgb'), d.close()), ('image human', 'image rgb', 'closed'), lab + ': render and close')
    expect_eq(log, [('render', 'human'), ('render', 'rgb'), ('close',)], lab + ': render and close')


def hashing(rec, c):
    obs = c
    env = Auto(TABLES[0], DONES[0], obs)
    d = GymDomainHashable(env)
    got = []
    for seq in itertools.product((0, 1), repeat=3):
        o = d.reset()
        got.append((0, o))
        for (st, _, _, _), a in zip(run_ref(TABLES[0], DONES[0], True, seq), seq):
            got.append((st[0], d.step(a).observation))
    for (i, a), (j, b) in itertools.product(got, repeat=2):
        rec.state()
        expect_eq(a == b, i == j, lambda: 'hashable states (%s): %r == %r' % (obs, a, b))
        if i == j:
            expect(hash(a) == hash(b), 'hashable states (%s): hashes of equal states' % obs)
        expect_eq(str(a) == str(b), i == j, 'hashable states: text')
    expect_eq(len({o for _, o in got}), len({i for i, _ in got}), 'hashable states: set')
    # the same observation in another numeric type
    for (i, a), f in itertools.product(got[:6], (np.float64, np.int64)):
        b = GymDomainHashableState(retyped(a._state, f))
        for j, o in got[:6]:
            same = flat(o._state) == flat(b._state)
            expect_eq(o == b, same, lambda: 'hashable states (%s): %r == %r' % (obs, o, b))
            if same:
                expect(hash(o) == hash(b), lambda: 'hashable states (%s): hashes of equal states %r, %r' % (obs, o, b))


def retyped(e, f):
    if isinstance(e, np.ndarray):
        return e.astype(f)
    if isinstance(e, tuple):
        return tuple(retyped(x, f) for x in e)
    return OrderedDict((k, retyped(v, f)) for k, v in e.items()) if isinstance(e, dict) else f(e)


def det_init(rec, c):
    """every reset goes back to the first initial state, in each mode"""
    obs, mode, T, dn = c
    enc = OBS[obs][1]
    lab = 'DeterministicInitializedGymDomain (%s, %s)' % (obs, mode)

    def play(seqs, use_memory):
        env = Auto(T, dn, obs, random_reset=True)
        d = DeterministicInitializedGymDomain(env, *((SET, GET) if mode == 'set/get' else (lambda e, s: 1 / 0, None) if mode == 'set only' else ()))
        s0 = None
        first = None
        for n, seq in enumerate(seqs):
            if use_memory and n == len(seqs) - 2:
                if use_memory == 'other':
                    d2 = DeterministicInitializedGymDomain(Auto(T, dn, obs, random_reset=True), *((SET, GET) if mode == 'set/get' else ()))
                    first = d2.reset()
                    s0 = None
                d.set_memory(first)
                o = first
            else:
                o = d.reset()
            i0 = [i for i in range(3) if key(enc(i)) == key(o._state)]
            expect(len(i0) == 1, lab + ': initial observation %r' % o)
            if s0 is None:
                s0, first = i0[0], o
            expect_eq(i0[0], s0, lab + ': initial state of episode %d' % n)
            expect(o == first and hash(o) == hash(first), lab + ': equality of initial states')
            for i, (st, r, dn_, info) in enumerate(run_ref(T, dn, True, seq, (s0, 0))):
                rec.trans()
                out = d.step(seq[i])
                at = '%s: table %r from %d, episode %d of %r, step %d' % (lab, T, s0, n, seqs, i)
                expect(key(out.observation._state) == key(enc(st[0])), lambda: '%s: observation %r instead of %r' % (at, out.observation, enc(st[0])))
                expect_eq((val(out.value), bool(out.termination), out.info), ((r, -r), dn_, info), at)
        if use_memory != 'other':
            check_spaces(d, env, obs, lab)
        return s0
    for use_memory in (('other',) if mode != 'set only' else ()):
        for seqs in itertools.product(((0,), (1, 0)), repeat=3):
            got = []
            for (kind, r), tr, p in nondet.explore(lambda: play(seqs, use_memory)):
                rec.trace()
                if kind == 'exc':
                    raise r
                got.append(r)
            expect_eq(sorted(got), sorted(list(range(3)) * 3), lab + ': initial states')
    for seqs in itertools.product(((), (0,), (1,), (1, 0), (1, 1), (0, 1, 1)), repeat=3):
        for use_memory in (False, True):
            got = []
            for (kind, r), tr, p in nondet.explore(lambda: play(seqs, use_memory)):
                rec.trace()
                if kind == 'exc':
                    raise r
                got.append(r)
            expect_eq(sorted(set(got)), [0, 1, 2], lab + ': initial states')


def orders(depth):
    """orders in which the tree of action sequences is expanded: breadth first, depth first, reversed, interleaved"""
    nodes = [s for n in range(1, depth + 1) for s in itertools.product((0, 1), repeat=n)]
    yield 'breadth first', nodes
    yield 'reversed breadth first', [tuple(1 - a for a in s) for s in nodes]
    df = []

    def go(p):
        for a in (0, 1):
            if len(p) < depth:
                df.append(p + (a,))
                go(p + (a,))
    go(())
    yield 'depth first', df
    # children, then back to the root's other child, alternately from both ends
    yield 'twice', df + nodes
    alt = []
    lo, hi = [n for n in df if n[0] == 0], [n for n in df if n[0] == 1]
    for a, b in zip(lo, hi):
        alt += [a, b]
    yield 'alternating', alt


def det_plan(rec, c):
    """planning on the domain: states, values and termination do not depend on the order of exploration"""
    obs, mode, cls, T, dn = c
    enc = OBS[obs][1]
    lab = '%s (%s, %s)' % (cls.__name__, obs, mode)
    args = (SET, GET) if mode == 'set/get' else (lambda e, s: 1 / 0, None) if mode == 'set only' else ()
    for maxd, tg in (((0, False), (2, False), (2, True), (50, True)) if cls is GymPlanningDomain else ((None, None),)):
        for order, nodes in orders(3):
            for episode_first in (False, True):
                env = Auto(T, dn, obs)
                d = cls(env, *args) if maxd is None else cls(env, *(args or (None, None)), termination_is_goal=tg, max_depth=maxd)
                check_spaces(d, env, obs, lab)
                at0 = '%s%s: table %r, %s' % (lab, '' if maxd is None else ' max_depth=%r termination_is_goal=%r' % (maxd, tg), T, order)
                if episode_first:
                    d.reset()
                    d.step(1)
                    d.step(0)
                s0 = d.get_initial_state()
                states = {(): s0}
                for p in nodes:
                    rec.trans()
                    n = d.get_next_state(states[p[:-1]], p[-1])
                    st, r, dn_, _ = run_ref(T, dn, True, p)[-1]
                    at = lambda: '%s, after %r' % (at0, p)
                    expect(key(n._state) == key(enc(st[0])), lambda: '%s: state %r instead of %r' % (at(), n, enc(st[0])))
                    v = d.get_transition_value(states[p[:-1]], p[-1], n)
                    expect_eq(val(v), (r, -r), lambda: at() + ': value')
                    expect_eq(bool(d.is_terminal(n)), dn_, lambda: at() + ': is_terminal')
                    states[p] = n
                for p, s in states.items():
                    rec.state()
                    ref = run_ref(T, dn, True, p)
                    st, dn_ = (ref[-1][0], ref[-1][2]) if p else ((0, 0), False)
                    expect(key(s._state) == key(enc(st[0])), lambda: '%s: state of %r was changed' % (at0, p))
                    expect_eq(bool(d.is_terminal(s)), dn_, lambda: '%s: is_terminal after %r' % (at0, p))
                    if maxd is not None:
                        expect_eq(bool(d.is_goal(s)), len(p) >= maxd or (tg and dn_), lambda: '%s: is_goal after %r' % (at0, p))
                    for q, t in states.items():
                        st2 = (run_ref(T, dn, True, q)[-1][0] if q else (0, 0))
                        if (s == t) != (st[0] == st2[0]) or (s == t and hash(s) != hash(t)):
                            expect(False, '%s: equality of the states after %r and %r' % (at0, p, q))
                # an episode on the same domain after planning
                for seq in ((0, 1, 1), (1, 1, 0)):
                    o = d.reset()
                    expect(key(o._state) == key(enc(0)), at0 + ': reset after planning')
                    for i, (st, r, dn_, info) in enumerate(run_ref(T, dn, True, seq)):
                        out = d.step(seq[i])
                        at = lambda: '%s: playing %r after planning, step %d' % (at0, seq, i)
                        expect(key(out.observation._state) == key(enc(st[0])), lambda: '%s: observation %r instead of %r' % (at(), out.observation, enc(st[0])))
                        expect_eq((val(out.value), bool(out.termination)), ((r, -r), dn_), at)
                rec.trace()


# ---------------------------------------------------------------------------------------------- discretized actions
class ActEnv(gym.Env):
    def __init__(self, space):
        self.action_space, self.observation_space = space, gs.Discrete(2)

    def reset(self):
        return 0


class DiscDomain(GymDomain, GymDiscreteActionDomain):
    def __init__(self, env, factor=10, branching=None):
        GymDomain.__init__(self, env)
        if factor is None:
            GymDiscreteActionDomain.__init__(self)
        else:
            GymDiscreteActionDomain.__init__(self, discretization_factor=factor, branching_factor=branching)


def grid(lo, hi, k):
    return [lo + (hi - lo) / (k - 1) * i for i in range(k)] if k > 1 else [lo]


def act_spaces():
    """(description, space, function of the factor giving the expected values, as nested tuples)"""
    yield 'discrete', gs.Discrete(3), lambda k: [0, 1, 2]
    yield 'multidiscrete', gs.MultiDiscrete([2, 3]), lambda k: list(itertools.product(range(2), range(3)))
    yield 'multidiscrete3', gs.MultiDiscrete([2, 1, 3]), lambda k: list(itertools.product(range(2), range(1), range(3)))
    yield 'multidiscrete1', gs.MultiDiscrete([4]), lambda k: [(i,) for i in range(4)]
    yield 'multibinary', gs.MultiBinary(3), lambda k: list(itertools.product((0, 1), repeat=3))
    yield 'multibinary1', gs.MultiBinary(1), lambda k: [(0,), (1,)]
    yield 'box1', gs.Box(F(-1), F(1), (1,), F), lambda k: [(x,) for x in grid(-1, 1, k)]
    yield 'box2', gs.Box(np.array([-1., 0.], F), np.array([1., .7], F), dtype=F), lambda k: list(itertools.product(grid(-1, 1, k), grid(0, .7, k)))
    yield 'box 2x2', gs.Box(F(0.1), F(.9), (2, 2), F), lambda k: list(itertools.product(grid(.1, .9, k), repeat=4))
    yield 'box 0d', gs.Box(F(-.3), F(.3), (), F), lambda k: [(x,) for x in grid(-.3, .3, k)]
    yield 'box double', gs.Box(-1 / 3, .1, (2,), np.float64), lambda k: list(itertools.product(grid(-1 / 3, .1, k), repeat=2))
    yield 'tuple', gs.Tuple([gs.Discrete(2), gs.MultiBinary(2)]), lambda k: list(itertools.product(range(2), itertools.product((0, 1), repeat=2)))
    yield 'tuple1', gs.Tuple([gs.Discrete(2)]), lambda k: [(0,), (1,)]
    yield 'tuple box', gs.Tuple([gs.Box(F(0), F(1), (1,), F), gs.Discrete(2)]), lambda k: list(itertools.product([(x,) for x in grid(0, 1, k)], range(2)))
    yield 'dict', gs.Dict({'a': gs.Discrete(2), 'b': gs.MultiDiscrete([2, 2])}), lambda k: [(('a', x), ('b', y)) for x in range(2) for y in itertools.product(range(2), repeat=2)]
    yield 'dict3', gs.Dict({'a': gs.Discrete(2), 'b': gs.Discrete(1), 'c': gs.MultiBinary(1)}), lambda k: [(('a', x), ('b', 0), ('c', (y,))) for x in range(2) for y in range(2)]
    yield 'nested', gs.Tuple([gs.Tuple([gs.Discrete(2), gs.Discrete(2)]), gs.Dict({'u': gs.Discrete(3)})]), \
        lambda k: [((x, y), (('u', z),)) for x in range(2) for y in range(2) for z in range(3)]


def flat(e):
    if isinstance(e, np.ndarray):
        return tuple(round(float(x), 4) for x in e.ravel())
    if hasattr(e, 'items'):
        return tuple(sorted((k, flat(v)) for k, v in e.items()))
    if isinstance(e, (tuple, list)):
        return tuple(flat(x) for x in e)
    if isinstance(e, str):
        return e
    return round(float(e), 4)


def in_space(space, e):
    if isinstance(space, gs.Tuple):
        return len(e) == len(space.spaces) and all(in_space(s, x) for s, x in zip(space.spaces, e))
    if isinstance(space, gs.Dict):
        return set(e) == set(space.spaces) and all(in_space(s, e[k]) for k, s in space.spaces.items())
    if isinstance(space, gs.MultiBinary):
        return space.contains(np.array(e, np.int8))
    return space.contains(e)


def discretize(rec, c):
    name, k = c
    space, f = {n: (s, f) for n, s, f in act_spaces()}[name]
    want = sorted((flat(w) for w in f(10 if k is None else k)), key=repr)
    lab = 'discretization (factor %r) of %s' % (k, space)
    d = DiscDomain(ActEnv(space), k)
    d.reset()
    for _ in (0, 1):
        els = list(d.get_applicable_actions().get_elements())
        rec.trans(len(els))
        got = sorted((flat(e) for e in els), key=repr)
        expect(got == want, lambda: '%s: %d actions %r..., expected %d: %r...' % (lab, len(got), got[:5], len(want), want[:5]))
    for e in els:
        rec.state()
        expect(in_space(space, e), lambda: '%s: %r is not an action' % (lab, e))
        if isinstance(space, gs.Box):
            expect(isinstance(e, np.ndarray) and e.shape == space.shape and e.dtype == space.dtype, lambda: '%s: shape or type of %r' % (lab, e))
            expect(space.contains(e), lambda: '%s: %r out of bounds' % (lab, e))
    # branching factor: exactly that many of them, every subset
    if len(want) <= 6:
        for b in range(1, len(want) + 2):
            sub = {}
            for (kind, r), tr, p in nondet.explore(lambda: tuple(flat(e) for e in DiscDomain(ActEnv(space), k or 10, b)._get_applicable_actions_from(None).get_elements())):
                expect(kind == 'ok', lambda: '%s, branching factor %d: %r' % (lab, b, r))
                expect(len(r) == min(b, len(want)) and len(set(r)) == len(r) and set(r) <= set(want), lambda: '%s, branching factor %d: %r' % (lab, b, r))
                sub[tuple(sorted(r, key=repr))] = sub.get(tuple(sorted(r, key=repr)), 0) + p
                rec.trace()
            n = len(list(itertools.combinations(want, min(b, len(want)))))
            expect(len(sub) == n and all(abs(p - 1 / n) < 1e-9 for p in sub.values()), lambda: '%s, branching factor %d: subsets %r' % (lab, b, sub))


def unbounded(rec, c):
    lo, hi, n, k = c
    space = gs.Box(np.full(n, lo, F), np.full(n, hi, F), dtype=F)
    els = list(DiscDomain(ActEnv(space), k)._get_applicable_actions_from(None).get_elements())
    lab = 'discretization (factor %d) of %s' % (k, space)
    expect_eq(len(els), k ** n, lab + ': number of actions')
    for e in els:
        rec.state()
        expect(space.contains(e), lambda: '%s: %r is not an action' % (lab, e))


# ---------------------------------------------------------------------------------------------------- width features
class Feat(GymDomain, GymWidthDomain):
    def __init__(self, space, fid=1):
        e = ActEnv(gs.Discrete(2))
        e.observation_space = space
        GymDomain.__init__(self, e)
        GymWidthDomain.__init__(self, fid)


FV = [0., -0., 1., -1., .5, 1e-30, -1e-30, 3e38, 2.]
FEAT = {
    'discrete': (lambda: gs.Discrete(5), lambda: range(5)),
    'discrete1': (lambda: gs.Discrete(1), lambda: [0]),
    'discrete8': (lambda: gs.Discrete(8), lambda: [np.int64(i) for i in range(8)]),
    'multidiscrete': (lambda: gs.MultiDiscrete([3, 5]), lambda: [np.array(v) for v in itertools.product(range(3), range(5))]),
    'multibinary': (lambda: gs.MultiBinary(3), lambda: [np.array(v, np.int8) for v in itertools.product((0, 1), repeat=3)]),
    'box': (lambda: gs.Box(F(-3e38), F(3e38), (2,), F), lambda: [np.array(v, F) for v in itertools.product(FV, repeat=2)]),
    'box bits': (lambda: gs.Box(F(-3e38), F(3e38), (1,), F),
                 lambda: [np.array([struct.unpack('!f', struct.pack('!I', k << i))[0]], F) for k in (1, 3) for i in range(30)] + [np.array([F(x)]) for x in FV[:6]]),
    'box 2x1': (lambda: gs.Box(F(-3), F(3), (2, 1), F), lambda: [np.array(v, F).reshape(2, 1) for v in itertools.product(FV[:5], repeat=2)]),
    'tuple': (lambda: gs.Tuple([gs.Discrete(3), gs.Box(F(-3), F(3), (1,), F)]), lambda: [(i, np.array([x], F)) for i in range(3) for x in FV[:7]]),
    'dict': (lambda: gs.Dict({'b': gs.MultiBinary(1), 'a': gs.Discrete(3)}), lambda: [OrderedDict(a=i, b=np.array([x], np.int8)) for i in range(3) for x in (0, 1)]),
    'nested': (lambda: gs.Dict({'u': gs.Tuple([gs.Discrete(2), gs.Discrete(3)]), 'v': gs.Box(F(-3), F(3), (1,), F)}),
               lambda: [OrderedDict(u=(i, j), v=np.array([x], F)) for i in range(2) for j in range(3) for x in FV[:3]]),
}


def norm(e):
    return tuple((x + 0.0 if isinstance(x, float) else x) if not isinstance(x, tuple) else norm(x) for x in e) if isinstance(e, tuple) else e


def binary(rec, c):
    mk, els = FEAT[c]
    d = Feat(mk())
    n = d.nb_of_binary_features()
    lab = 'binary features of ' + str(mk())
    seen = {}
    for e in els():
        rec.state()
        for el in (e, GymDomainHashableState(e)):
            f = tuple(d.binary_features(el))
            expect(all(isinstance(b, (bool, np.bool_)) for b in f), lambda: '%s: %r' % (lab, f))
            expect_eq(len(f), n, lambda: '%s: number of features of %r' % (lab, e))
        k = norm(key(e))
        for f2, k2 in seen.items():
            expect((f2 == f) == (k2 == k), lambda: '%s: %r and %r have %s features' % (lab, k, k2, 'the same' if f2 == f else 'different'))
        seen[f] = k
    bits = {'discrete': 3, 'discrete1': 1, 'discrete8': 3, 'multidiscrete': 5, 'multibinary': 3, 'box': 64, 'box bits': 32, 'box 2x1': 64, 'tuple': 34, 'dict': 3, 'nested': 35}[c]
    expect_eq(n, bits, lab + ': number of features')


from skdecide.hub.domain.gym.gym import GymDomainStateProxy as GymDomainHashableState


class Layers:
    """Reference of bee1: in each direction, the layers of a variable are bounded by the extents reached so far; each layer is refined
    the same way from its inner bound."""

    def __init__(self, x0):
        self.x0, self.dirs = x0, {1: Layer(x0, 1), -1: Layer(x0, -1)}

    def get(self, x, fid):
        return self.dirs[1 if x > self.x0 else -1].get(x, fid)


class Layer:
    def __init__(self, ref, sign):
        self.ref, self.sign, self.ext, self.sub = ref, sign, [0.], {}

    def get(self, x, fid):
        if fid == 0:
            return []
        e = self.sign * (x - self.ref)
        i = sum(1 for y in self.ext if y < e)
        if i == len(self.ext):  # farther than ever
            self.sub[i] = Layer(self.ref + self.sign * self.ext[i - 1], self.sign)
            self.ext.append(e)
            return [self.sign * i] + [0] * (fid - 1)
        if i == 0:
            return [0] * fid
        return [self.sign * i] + self.sub[i].get(x, fid - 1)


def bee1(rec, c):
    """all sequences of values of one or two variables"""
    kind, xs = c
    L = 4 if kind == 'one' else 3
    for fid in (1, 2, 3):
        for seq in itertools.product(xs, repeat=L):
            if kind == 'one':
                space = gs.Box(F(-9), F(9), (1,), F)
                els = [np.array([x], F) for x in seq]
                cells = [(x,) for x in seq]
            else:
                space = gs.Dict({'a': gs.Tuple([gs.Box(F(-9), F(9), (1,), F), gs.Discrete(4)]), 'b': gs.Box(F(-9), F(9), (1,), F)})
                els = [OrderedDict(a=(np.array([x], F), i), b=np.array([-2 * x + i], F)) for i, x in enumerate(seq)]
                cells = [(x, i, -2 * x + i) for i, x in enumerate(seq)]
            d = Feat(space, fid)
            cont = [0] if kind == 'one' else [0, 2]
            ls = {j: Layers(cells[0][j]) for j in cont}
            again = {}
            for n, (e, cell) in enumerate(zip(els, cells)):
                rec.trans()
                f = list(d.bee1_features(e if n % 2 else GymDomainHashableState(e)))
                lab = 'bee1 features (fidelity %d) of %r' % (fid, cells[:n + 1])
                want = [y for j in range(len(cell)) for y in (ls[j].get(cell[j], fid) if j in ls else [cell[j]])]
                expect_eq(f, want, lambda: lab)
            rec.trace()


class Intervals:
    """Reference of bee2: the range of a variable grows by intervals; each interval is refined the same way."""

    def __init__(self):
        self.iv = []

    def get(self, x, level):
        if not self.iv:
            self.iv.append((x, x, Intervals()))
            return (0,) + (-1,) * level
        lo, hi = min(i[0] for i in self.iv), max(i[1] for i in self.iv)
        if x < lo or x > hi:
            self.iv.append((x, lo, Intervals()) if x < lo else (hi, x, Intervals()))
            return (len(self.iv) - 1,) + (-1,) * level
        for k, (a, b, sub) in enumerate(self.iv):
            if a <= x <= b:
                return (k,) + (sub.get(x, level - 1) if level else ())


def bee2(rec, c):
    kind, xs = c
    for fid in (1, 2, 3):
        for seq in itertools.product(xs, repeat=4 if kind == 'one' else 3):
            if kind == 'one':
                space = gs.Box(F(-9), F(9), (1,), F)
                els, cells, cont = [np.array([x], F) for x in seq], [(x,) for x in seq], [0]
            else:
                space = gs.Tuple([gs.Discrete(4), gs.Box(F(-9), F(9), (2,), F), gs.Dict({'z': gs.MultiBinary(1), 'y': gs.Box(F(-9), F(9), (1,), F)})])
                els = [(i, np.array([x, -x], F), OrderedDict(y=np.array([2 * x], F), z=np.array([i % 2], np.int8))) for i, x in enumerate(seq)]
                cells, cont = [(i, x, -x, 2 * x, i % 2) for i, x in enumerate(seq)], [1, 2, 3]
            d = Feat(space, fid)
            refs = {j: Intervals() for j in cont}
            for j in cont:
                refs[j].get(cells[0][j], 0)
            for n, (e, cell) in enumerate(zip(els, cells)):
                rec.trans()
                f = list(d.bee2_features(GymDomainHashableState(e) if n % 2 else e))
                want = []
                for j in range(len(cell)):
                    want += list(refs[j].get(cell[j], fid - 1)) if j in refs else [cell[j]]
                expect_eq(f, want, lambda: 'bee2 features (fidelity %d) of %r' % (fid, cells[:n + 1]))
            rec.trace()


def ellipses(rec, c):
    import math
    n, x0, xg = c
    d = Feat(gs.Box(F(-99), F(99), (n,), F))
    X0, XG = np.array(x0, F), np.array(xg, F)
    d.init_elliptical_features(X0, XG)
    pairs = list(itertools.combinations(range(n), 2))
    for x in [tuple(x0)] + list(itertools.product((-20., 0.25, 3., 5., 11.), repeat=n)):
        rec.state()
        got = [int(v) for v in d.elliptical_features(np.array(x, F))]
        expect_eq(got, [int(v) for v in d.elliptical_features(GymDomainHashableState(np.array(x, F)))], 'elliptical features of a proxy')
        expect_eq(len(got), len(pairs), 'elliptical features: number')
        for (i, j), g in zip(pairs, got):
            c0 = math.hypot(x0[i] - xg[i], x0[j] - xg[j])
            cx = math.hypot(x[i] - xg[i], x[j] - xg[j])
            if c0 == 0:
                continue
            levels = 10 * max(math.log10(c0), 1.)
            dl = c0 / levels
            radii, r = [], c0
            while r > dl * (1 + 1e-9) or (not radii):
                radii.append(r)
                r -= dl
            lo, hi = sum(1 for r in radii if r < cx - 1e-3), sum(1 for r in radii if r < cx + 1e-3)
            if list(x) == list(x0):
                out = int(d.elliptical_features(np.array([2 * v - w for v, w in zip(x0, xg)], F))[pairs.index((i, j))])  # outside all rings
                expect(g == out - 1, lambda: 'elliptical feature of the initial state %r towards %r: %r of %d rings' % (x0, xg, g, out))
            # a last ring of about one step radius may be counted or not (rounding)
            expect(lo <= g <= hi + 1 and (cx > dl * 1.01 or g == 0 or lo > 0 or cx == 0), lambda: 'elliptical feature of %r from %r to %r: %r not in %d..%d' % (x, x0, xg, g, lo, hi))


# ---------------------------------------------------------------------------------------------------- AsGymEnv
class Col(enum.Enum):
    r = 'R'
    g = 'G'
    b = 'B'


@dataclass(frozen=True)
class Dat:
    u: int
    v: int


class PT(NamedTuple):
    n: int


def mkdomain(T, dn, ospace, aspace, oenc, aenc, info, log):
    class D(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, FullyObservable, Renderable, Rewards):
        T_state = object
        T_observation = object
        T_event = object
        T_value = float
        T_info = object

    class Dom(D):
        def _state_reset(self):
            self.st = (0, 0)
            return oenc(0)

        def _state_step(self, action):
            log.append(action)
            a = [i for i in (0, 1) if aenc(i) == action and type(aenc(i)) is type(action)]
            expect(len(a) == 1, 'AsGymEnv: the domain got action %r' % (action,))
            self.st, r, d, inf = auto(T, dn, True, self.st, a[0])
            return TransitionOutcome(state=oenc(self.st[0]), value=Value(reward=r), termination=d, info=inf if info else None)

        def _get_action_space_(self):
            return aspace()

        def _get_observation_space_(self):
            return ospace()

        def _render_from(self, memory, **k):
            return ('render', key(memory) if isinstance(memory, np.ndarray) else memory, k)

        def close(self):
            return 'closed'
    return Dom()


OSP = {'list': (lambda: ListSpace(['x', PT(1), None]), lambda i: ['x', PT(1), None][i], lambda i: i),
       'enum': (lambda: EnumSpace(Col), lambda i: list(Col)[i], lambda i: i),
       'data': (lambda: DataSpace(Dat, {'u': gs.Discrete(3), 'v': gs.Discrete(3)}), lambda i: Dat(i, 2 - i), lambda i: {'u': i, 'v': 2 - i}),
       'discrete': (lambda: DiscreteSpace(3), lambda i: i, lambda i: i),
       'multidiscrete': (lambda: MultiDiscreteSpace([3, 3]), lambda i: np.array([i, 2 - i]), lambda i: np.array([i, 2 - i]))}
ASP = {'enum': (lambda: EnumSpace(enum_ab), lambda i: list(enum_ab)[i], lambda i: i),
       'list': (lambda: ListSpace([PT(5), 'go']), lambda i: [PT(5), 'go'][i], lambda i: i),
       'discrete': (lambda: DiscreteSpace(2), lambda i: i, lambda i: i),
       'data': (lambda: DataSpace(Dat, {'u': gs.Discrete(3), 'v': gs.Discrete(3)}), lambda i: Dat(i, 1), lambda i: {'u': i, 'v': 1})}
enum_ab = enum.Enum('enum_ab', 'a b')


def asgym(rec, c):
    on, an, unwrap, info, T, dn = c
    osp, oenc, ou = OSP[on]
    asp, aenc, au = ASP[an]
    log = []
    d = mkdomain(T, dn, osp, asp, oenc, aenc, info, log)
    env = AsGymEnv(d) if unwrap is None else AsGymEnv(d, unwrap_spaces=unwrap)
    un = unwrap is not False
    lab = 'AsGymEnv (%s, %s, unwrap_spaces=%r)' % (on, an, unwrap)
    if not un:
        ou, au = oenc, aenc
        expect(type(env.observation_space) is type(osp()) and type(env.action_space) is type(asp()), lab + ': spaces')
    else:
        expect(env.observation_space == osp().unwrapped() and env.action_space == asp().unwrapped(), lab + ': spaces')
    expect(env.unwrapped() is d, lab + ': unwrapped')
    for seqs in itertools.product(itertools.product((0, 1), repeat=2), repeat=2):
        for seq in seqs:
            rec.trace()
            o = env.reset()
            expect(key(o) == key(ou(0)) and env.observation_space.contains(o), lambda: '%s: reset returns %r instead of %r' % (lab, o, ou(0)))
            for i, (st, r, dn_, inf) in enumerate(run_ref(T, dn, True, seq)):
                rec.trans()
                del log[:]
                a = au(seq[i])
                expect(env.action_space.contains(a), lab + ': action space')
                got = env.step(a)
                at = lambda: '%s: table %r after %r' % (lab, T, seq[:i + 1])
                expect_eq(len(got), 4, at)
                expect(key(got[0]) == key(ou(st[0])) and env.observation_space.contains(got[0]), lambda: '%s: observation %r instead of %r' % (at(), got[0], ou(st[0])))
                expect_eq((got[1], bool(got[2]), got[3]), (r, dn_, inf if info else {}), at)
                expect_eq(log, [aenc(seq[i])], lambda: at() + ': actions sent to the domain')
    for mode in (None, 'human', 'rgb_array'):
        r = env.render() if mode is None else env.render(mode=mode)
        expect(r[0] == 'render' and r[2] == {'mode': mode or 'human'}, lab + ': render %r' % (r,))
    expect_eq(env.close(), 'closed', lab + ': close')


def roundtrip(rec, c):
    """a Gym environment wrapped as a domain wrapped as a Gym environment"""
    obs, T, dn = c
    enc = OBS[obs][1]
    env = AsGymEnv(GymDomain(Auto(T, dn, obs)))
    for seqs in itertools.product(itertools.product((0, 1), repeat=3), repeat=2):
        for seq in seqs:
            rec.trace()
            expect(key(env.reset()) == key(enc(0)), 'wrapped twice: reset')
            for i, (st, r, dn_, inf) in enumerate(run_ref(T, dn, True, seq)):
                g = env.step(seq[i])
                expect(key(g[0]) == key(enc(st[0])) and g[1:] == (r, dn_, inf), lambda: 'wrapped twice (%s), table %r after %r: %r' % (obs, T, seq[:i + 1], g))


def build(ck):
    ck.rule = ('all action sequences (and orders of exploration) up to the depth on finite environments with a hidden counter, call by call; all discretized actions; '
               'all sequences of values for the width features; against the environment itself / direct definitions')
    ck.scope = '6 transition tables x 3 termination sets x 8 kinds of observation spaces; depth 3; 17 action spaces x 5 factors; 10 feature spaces; 5 x 4 spaces for AsGymEnv'
    tabs = TABLES if not THOROUGH else list(itertools.product(range(3), repeat=6))[::7] + TABLES
    td = [(t, dn) for t in tabs for dn in DONES]
    ck.run([(o, cls) + x for o in OBS for cls in (GymDomain, GymDomainHashable) for x in td], plain, 'wrapped environments', chunk=4)
    ck.run(list(OBS), hashing, 'hashable states', chunk=1)
    ck.run([(o, m) + x for o in ('discrete', 'box', 'dict') for m in ('copy', 'set/get', 'set only') for x in td[::2]], det_init, 'deterministic initial state', chunk=1, timeout=200)
    ck.run([(o, m, cls) + x for o in OBS for m in ('copy', 'set/get', 'set only') for cls in (DeterministicGymDomain, GymPlanningDomain) for x in td[::3] + td[1:6:3]],
           det_plan, 'planning on an environment', chunk=1, timeout=200)
    ck.run([(n, k) for n, _, _ in act_spaces() for k in (1, 2, 3, 5, None) if not (k in (5, None) and n == 'box 2x2')], discretize, 'discretized actions', chunk=1)
    inf = float('inf')
    ck.run([(lo, hi, n, k) for lo, hi in ((-inf, inf), (0, inf), (-inf, 1)) for n in (1, 2) for k in (1, 2, 3)], unbounded, 'discretized unbounded actions', chunk=1)
    ck.run(list(FEAT), binary, 'binary features', chunk=1)
    xs = (0., 1., -1., 2.5, -3., 4., .5)
    ck.run([(k, s) for k in ('one', 'many') for s in ([xs[:5]] + [xs[2:]] + [(2., 1., 3., 2.25)])], bee1, 'bee1 features', chunk=1, timeout=200)
    ck.run([(k, s) for k in ('one', 'many') for s in ([xs[:5]] + [xs[2:]] + [(2., 1., 3., 2.25)])], bee2, 'bee2 features', chunk=1, timeout=200)
    ck.run([(n, tuple(a[:n]), tuple(b[:n])) for n in (2, 3) for a in ((0., 4., 9.), (30., -7., 1.)) for b in ((0., 0., 0.), (3., 4., 5.), (-40., 2., 1.))], ellipses, 'elliptical features', chunk=1)
    ck.run([(o, a, u, i) + x for o in OSP for a in ASP for u in (None, True, False) for i in (False, True) for x in td[::4]], asgym, 'domains as Gym environments', chunk=4)
    ck.run([(o,) + x for o in OBS for x in td], roundtrip, 'wrapped twice', chunk=4)
    ck.sample({'table': TABLES[0], 'done': sorted(DONES[1])})
