"""C03: running a domain as an environment / simulator.

Explicit exploration of all operation sequences (reset, step, set_memory, sample, ...) up to a depth on real domains
built from every combination of memory x dynamics x initialization x observability x agent level, in lockstep with a
reference model; all outcomes of all random draws are enumerated, and the probability of every observed trace is
compared with the one computed from the declared distributions."""
from __future__ import annotations

import itertools
import zlib

import numpy as np

from mc import nondet
from mc.core import expect, expect_eq, THOROUGH

import skdecide
from skdecide.core import *
from skdecide.builders.domain import *
from skdecide.domains import Domain

ACTIONS = (0, 1)


def h(*x):
    return zlib.crc32(repr(x).encode()) % 1000003


def canon_mem(m, lvl):
    if lvl in ('hist', 'fin1', 'fin2', 'fin3'):
        assert_mem(m)
        return tuple(m)
    return m


class NotMemory(AssertionError):
    pass


def assert_mem(m):
    expect(isinstance(m, Memory), lambda: 'the dynamics was given %r instead of a Memory of states' % (m,))


MAXLEN = {'hist': None, 'fin1': 1, 'fin2': 2, 'fin3': 3}
MEMCLS = {'hist': History, 'fin1': FiniteHistory, 'fin2': FiniteHistory, 'fin3': FiniteHistory, 'markov': Markovian,
          'memless': Memoryless}
DYN = {'env': Environment, 'sim': Simulation, 'unc': UncertainTransitions, 'enum': EnumerableTransitions,
       'det': DeterministicTransitions}
INIT = {'init': Initializable, 'uinit': UncertainInitialized, 'dinit': DeterministicInitialized}
OBSV = {'part': PartiallyObservable, 'trans': TransformedObservable, 'full': FullyObservable}


def branches(memc, a, dyn):
    """Declared next state distribution. States are small ints; 0 is among them on purpose (falsy)."""
    akey = tuple(sorted(a.items())) if isinstance(a, dict) else a
    s1 = h('n', memc, akey) % 5
    if dyn in ('det', 'env', 'sim'):
        return [(s1, 1.0)]
    s2 = (s1 + 2) % 5
    return [(s1, 0.25), (s2, 0.75)]


def value_of(memc, a, s, multi):
    akey = tuple(sorted(a.items())) if isinstance(a, dict) else a
    v = TransitionValue(reward=h('v', memc, akey, s) % 17)
    return {'ag1': v, 'ag2': TransitionValue(cost=h('w', memc, akey, s) % 13)} if multi else v


def term_of(s):
    return s == 3


def obs_branches(s, a, obsv, multi):
    akey = tuple(sorted(a.items())) if isinstance(a, dict) else a
    w = (lambda o: {'ag1': ('x', o), 'ag2': ('y', o)}) if multi else (lambda o: o)
    if obsv == 'full':
        return [(s, 1.0)]
    if obsv == 'trans':
        return [(w(('o', s, akey)), 1.0)]
    return [(w(('o', s, akey, 0)), 0.5), (w(('o', s, akey, 1)), 0.5)]


def build_domain(cfg):
    mem, dyn, ini, obsv, multi = cfg
    bases = [Domain, MultiAgent if multi else SingleAgent, Sequential, DYN[dyn], Actions, INIT[ini], MEMCLS[mem],
             OBSV[obsv], Rewards]
    ns = {}
    if mem.startswith('fin'):
        ns['_get_memory_maxlen_'] = lambda self: MAXLEN[mem]

    def _state_step(self, action):
        return self._out(self._memory, action)

    def _state_sample(self, memory, action):
        return self._out(memory, action)

    def _out(self, memory, action):
        mc = canon_mem(memory, mem)
        s = branches(mc, action, dyn)[0][0]
        return TransitionOutcome(s, value_of(mc, action, s, multi), term_of(s), ('info', s))
    ns['_out'] = _out
    if dyn == 'env':
        ns['_state_step'] = _state_step
    elif dyn == 'sim':
        ns['_state_sample'] = _state_sample
    else:
        ns['_get_transition_value'] = lambda self, memory, action, next_state=None: value_of(
            canon_mem(memory, mem), action, next_state, multi)
        ns['_is_terminal'] = lambda self, state: term_of(state)
        if dyn == 'det':
            ns['_get_next_state'] = lambda self, memory, action: branches(canon_mem(memory, mem), action, dyn)[0][0]
        elif dyn == 'enum':
            ns['_get_next_state_distribution'] = lambda self, memory, action: DiscreteDistribution(
                branches(canon_mem(memory, mem), action, dyn))
        else:
            ns['_get_next_state_distribution'] = lambda self, memory, action: ImplicitDistribution(
                lambda: DiscreteDistribution(branches(canon_mem(memory, mem), action, dyn)).sample())
    if ini == 'init':
        ns['_state_reset'] = lambda self: 0
    elif ini == 'uinit':
        ns['_get_initial_state_distribution_'] = lambda self: DiscreteDistribution([(0, 0.25), (4, 0.75)])
    else:
        ns['_get_initial_state_'] = lambda self: 0
    if obsv == 'part':
        ns['_get_observation_distribution'] = lambda self, state, action=None: DiscreteDistribution(
            obs_branches(state, action, obsv, multi))
    elif obsv == 'trans':
        ns['_get_observation'] = lambda self, state, action=None: obs_branches(state, action, obsv, multi)[0][0]
    ns['_get_applicable_actions_from'] = lambda self, memory: ImplicitSpace(
        lambda e, m=canon_mem(memory, mem): (h('a', m, e) % 2) == 0) if not multi else {
        n: ImplicitSpace(lambda e, m=canon_mem(memory, mem), n=n: (h('a', m, e, n) % 2) == 0) for n in ('ag1', 'ag2')}
    return type('Dm', tuple(bases), ns)


def mk_memory(mem, k):
    if mem in MAXLEN:
        content = [[0], [2, 1], [1, 0, 4]][k]
        return Memory(content, maxlen=MAXLEN[mem])
    return None if mem == 'memless' else (0, 2, 4)[k]


def acts(multi):
    if multi:
        return [{'ag1': 0, 'ag2': 1}, {'ag2': 1, 'ag1': 1}]
    return [0, 1]


def ops_for(cfg):
    mem, dyn, ini, obsv, multi = cfg
    ops = [('reset',)] + [('step', i) for i in range(2)]
    if dyn != 'env':
        ops += [('set', k) for k in range(3 if mem != 'memless' else 1)]
        ops += [('sample', k, i) for k, i in ((1, 0), (2, 1))]
    if dyn in ('unc', 'enum', 'det'):
        ops += [('dist', 2, 0)]
    ops += [('app',), ('appfrom', 0)]
    return ops


# -------------------------------------------------------------------------------------------- reference model
def m_append(mc, s, mem):
    if mem in MAXLEN:
        t = tuple(mc) + (s,)
        n = MAXLEN[mem]
        return t if n is None else t[-n:] if n else ()
    return None if mem == 'memless' else s


def model_paths(cfg, seq):
    """All (observation trace, probability) of an operation sequence."""
    mem, dyn, ini, obsv, multi = cfg
    paths = [((), 1.0, None)]  # trace, probability, memory
    for op in seq:
        nxt = []
        for tr, p, mc in paths:
            if op[0] == 'reset':
                ibr = [(0, 0.25), (4, 0.75)] if ini == 'uinit' else [(0, 1.0)]
                for s, q in ibr:
                    for o, r in obs_branches(s, None, obsv, multi):
                        m2 = (s,) if mem in MAXLEN else (None if mem == 'memless' else s)
                        nxt.append((tr + (('reset', repr(o)),), p * q * r, m2))
            elif op[0] in ('step', 'sample'):
                a = acts(multi)[op[-1]]
                src = mc if op[0] == 'step' else mcanon(mk_memory(mem, op[1]), mem)
                for s, q in branches(src, a, dyn):
                    for o, r in obs_branches(s, a, obsv, multi):
                        v = value_of(src, a, s, multi)
                        info = ('info', s) if dyn in ('env', 'sim') else 'DEFAULT'
                        t2 = tr + ((op[0], repr(o), repr(v), term_of(s), info),)
                        nxt.append((t2, p * q * r, m_append(mc, s, mem) if op[0] == 'step' else mc))
            elif op[0] == 'set':
                nxt.append((tr + (('set',),), p, mcanon(mk_memory(mem, op[1]), mem)))
            elif op[0] == 'dist':
                src = mcanon(mk_memory(mem, op[1]), mem)
                a = acts(multi)[op[2]]
                if dyn == 'unc':
                    for s, q in branches(src, a, dyn):
                        nxt.append((tr + (('dist', s),), p * q, mc))
                else:
                    nxt.append((tr + (('dist', repr(branches(src, a, dyn))),), p, mc))
            elif op[0] in ('app', 'appfrom'):
                src = mc if op[0] == 'app' else mcanon(mk_memory(mem, op[1]), mem)
                nxt.append((tr + ((op[0],) + app_ref(src, multi),), p, mc))
        paths = nxt
    out = {}
    for tr, p, _ in paths:
        out[tr] = out.get(tr, 0) + p
    return out


def mcanon(m, mem):
    return tuple(m) if mem in MAXLEN else m


def app_ref(mc, multi):
    if multi:
        return tuple(all((h('a', mc, a[n], n) % 2) == 0 for n in a) for a in acts(multi))
    return tuple((h('a', mc, a) % 2) == 0 for a in acts(multi))


def run_impl(D, cfg, seq):
    mem, dyn, ini, obsv, multi = cfg
    d = D()
    tr = ()
    for op in seq:
        if op[0] == 'reset':
            tr += (('reset', repr(d.reset())),)
        elif op[0] in ('step', 'sample'):
            a = acts(multi)[op[-1]]
            keep = repr(a)
            if op[0] == 'step':
                o = d.step(a)
            else:
                m = mk_memory(mem, op[1])
                keepm = repr(m)
                o = d.sample(m, a)
                expect_eq(repr(m), keepm, 'sample() changed the memory it was given')
            expect_eq(repr(a), keep, 'the action object was modified')
            expect(type(o) is EnvironmentOutcome, lambda: '%s() returned %r' % (op[0], o))
            if dyn in ('env', 'sim'):
                info = o.info
            else:
                dflt = {k: None for k in o.observation} if isinstance(o.observation, dict) else None
                info = 'DEFAULT' if o.info in (None, dflt) else o.info
            tr += ((op[0], repr(o.observation), repr(o.value), o.termination, info),)
        elif op[0] == 'set':
            d.set_memory(mk_memory(mem, op[1]))
            tr += (('set',),)
        elif op[0] == 'dist':
            m, a = mk_memory(mem, op[1]), acts(multi)[op[2]]
            dist = d.get_next_state_distribution(m, a)
            if dyn == 'unc':
                tr += (('dist', dist.sample()),)
            else:
                tr += (('dist', repr([(v, p) for v, p in dist.get_values()])),)
                if dyn == 'det':
                    expect_eq(d.get_next_state(m, a), dist.get_value(), 'get_next_state')
        elif op[0] == 'app':
            # membership through both interfaces, internal memory
            r = tuple(bool(d.is_applicable_action(a)) for a in acts(multi))
            sp = d.get_applicable_actions()
            r2 = tuple(all(sp[n].contains(a[n]) for n in a) if multi else sp.contains(a) for a in acts(multi))
            expect_eq(r2, r, 'is_applicable_action() disagrees with get_applicable_actions()')
            tr += (('app',) + r,)
        else:
            m = mk_memory(mem, op[1])
            if m is None:  # memoryless: an explicit None is the internal memory
                r = tuple(bool(d.is_applicable_action(a)) for a in acts(multi))
            else:
                r = tuple(bool(d.is_applicable_action(a, m)) for a in acts(multi))
                sp = d.get_applicable_actions(m)
                r2 = tuple(all(sp[n].contains(a[n]) for n in a) if multi else sp.contains(a) for a in acts(multi))
                expect_eq(r2, r, 'is_applicable_action() disagrees with get_applicable_actions()')
            tr += (('appfrom',) + r,)
    return tr


def seqs(cfg, depth):
    ops = ops_for(cfg)
    starts = [('reset',)]
    if cfg[1] != 'env':
        starts.append(('set', 0))
    for st in starts:
        for n in range(depth):
            for rest in itertools.product(ops, repeat=n):
                yield (st,) + rest


def cases_for(depth):
    for cfg in itertools.product(MEMCLS, DYN, INIT, OBSV, (False, True)):
        if cfg[3] == 'full' and cfg[4]:
            continue  # a fully observable multi-agent domain has dict states; covered by C05
        yield cfg, depth


def case(rec, c):
    cfg, depth = c
    D = build_domain(cfg)
    for seq in seqs(cfg, depth):
        want = model_paths(cfg, seq)
        got = {}
        for (kind, res), _tr, p in nondet.explore(lambda: run_impl(D, cfg, seq)):
            if kind == 'exc':
                raise res
            got[res] = got.get(res, 0) + p
            rec.trans(len(seq))
            rec.trace()
        if set(got) != set(want):
            bad = sorted(set(got) ^ set(want), key=repr)[0]
            i = next((i for i in range(len(seq)) if bad[i] not in [w[i] for w in want]), len(seq) - 1)
            expect(False, 'operations %r on %r: %s trace %r; at operation %d expected one of %r' % (
                seq, cfg, 'unexpected' if bad in got else 'missing', bad, i, sorted(set(repr(w[i]) for w in want))[:3]))
        for t in want:
            expect(abs(want[t] - got[t]) < 1e-9, lambda: 'operations %r on %r: trace %r has probability %r instead of %r' % (
                seq, cfg, t, got[t], want[t]))
        rec.state((cfg, seq))
        rec.outcome(sorted(want)[0][-1])


def constants_case(rec, c):
    """Constant characteristics are evaluated on demand, cached per domain object, and stay constant."""
    which, multi = c
    calls = []
    specs = {'get_goals': ('_get_goals_', Goals), 'get_action_space': ('_get_action_space_', Actions),
             'get_observation_space': ('_get_observation_space_', PartiallyObservable),
             'get_initial_state': ('_get_initial_state_', DeterministicInitialized),
             'get_initial_state_distribution': ('_get_initial_state_distribution_', UncertainInitialized),
             'get_constraints': ('_get_constraints_', Constrained),
             'is_transition_value_dependent_on_next_state': ('_is_transition_value_dependent_on_next_state_', None)}
    hook, _ = specs[which]

    def f(self):
        calls.append(self)
        return [self.tag, len(calls)]
    D = type('D2', (Domain, MultiAgent if multi else SingleAgent, Sequential, Constrained, DeterministicTransitions,
                    Actions, Goals, DeterministicInitialized if which != 'get_initial_state_distribution' else UncertainInitialized,
                    Markovian, FullyObservable, Rewards), {hook: f})
    a, b = D(), D()
    a.tag, b.tag = 'a', 'b'
    r1, r2, r3, r4 = getattr(a, which)(), getattr(b, which)(), getattr(a, which)(), getattr(b, which)()
    expect(r1[0] == 'a' and r2[0] == 'b', '%s is not computed per domain: %r %r' % (which, r1, r2))
    expect(r3 is r1 and r4 is r2, '%s is not constant: %r then %r' % (which, r1, r3))
    if which == 'get_initial_state':
        x = a.get_initial_state_distribution()
        expect(x.get_value() is r1, 'initial state distribution')
        expect(a.reset() is r1 and a.reset() is r1, 'reset() does not start from the initial state')
    rec.state(c), rec.trans(4), rec.trace()


def unrestricted_case(rec, multi):
    el = [1, 2, 'x']

    class Sp(EnumerableSpace):
        def __init__(self, el):
            self.el = el

        def get_elements(self):
            return self.el

    class D(Domain, MultiAgent if multi else SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions,
            Goals, DeterministicInitialized, Markovian, FullyObservable, Rewards):
        def _get_action_space_(self):
            return {'p': Sp([1, 2]), 'q': Sp([2, 3])} if multi else Sp([1, 2])

        def _get_goals_(self):
            return {'p': Sp([1, 2]), 'q': Sp([2, 3])} if multi else Sp([1, 2])

        def _get_observation_space_(self):
            return {'p': Sp([1, 2]), 'q': Sp([2, 3])} if multi else Sp([1, 2])

        def _get_initial_state_(self):
            return 0
    d = D()
    d.reset()
    if multi:
        for p, q in itertools.product((0, 1, 2, 3), repeat=2):
            want = p in (1, 2) and q in (2, 3)
            for x in ({'p': p, 'q': q}, {'q': q, 'p': p}):
                expect_eq((d.is_applicable_action(x), d.is_applicable_action(x, 0), d.is_goal(x), d.is_observation(x)),
                          (want,) * 4, 'multi-agent membership of %r' % (x,))
            rec.trans(8)
        expect_eq(d.get_applicable_actions()['p'].get_elements(), [1, 2], 'applicable')
    else:
        for p in (0, 1, 2, 3):
            want = p in (1, 2)
            expect_eq((d.is_applicable_action(p), d.is_applicable_action(p, 0), d.is_goal(p), d.is_observation(p),
                       d.is_action(p)), (want,) * 5, 'membership of %r' % (p,))
            rec.trans(5)
        expect_eq(d.get_applicable_actions(0).get_elements(), [1, 2], 'applicable')
    for mem in (None, 0, 5):
        expect(list(d.get_enabled_events(mem).get_elements()) == [], 'a domain with only actions enables events')
        expect(d.is_enabled_event(1, mem) is False, 'uncontrollable event enabled')
    rec.state(multi), rec.trace()


def events_case(rec, mem):
    """Uncontrollable events: internal memory when omitted, the given one otherwise (also when it is falsy)."""
    D = type('De', (Domain, SingleAgent, Sequential, Simulation, Events, Initializable, MEMCLS[mem], FullyObservable,
                    Renderable, Rewards), {
        '_get_memory_maxlen_': lambda self: MAXLEN.get(mem, 1 if mem == 'markov' else 0),
        '_state_reset': lambda self: 3,
        '_get_enabled_events_from': lambda self, memory: ImplicitSpace(lambda e: (canon_mem(memory, mem), e) in good),
        '_render_from': lambda self, memory, **kw: (canon_mem(memory, mem), tuple(sorted(kw.items())))})
    d = D()
    d.reset()
    internal = (3,) if mem in MAXLEN else (None if mem == 'memless' else 3)
    cand = [mk_memory(mem, k) for k in range(3)]
    for target in [internal] + [mcanon(m, mem) for m in cand]:
        good = {(target, 'e')}
        for m in [None] + cand:
            eff = internal if m is None else mcanon(m, mem)
            for e in ('e', 'f'):
                want = (eff, e) in good
                expect_eq(bool(d.is_enabled_event(e, m)), want, 'is_enabled_event(%r, %r)' % (e, m))
                expect_eq(bool(d.get_enabled_events(m).contains(e)), want, 'get_enabled_events(%r)' % (m,))
                rec.trans(2)
            expect_eq(d.render(m, zoom=2), (eff, (('zoom', 2),)), 'render(%r)' % (m,))
            expect_eq(d.render() if m is None else d.render(m), (eff, ()), 'render(%r)' % (m,))
    rec.state(mem), rec.trace()


def value_case(rec, c):
    cost, cls = c
    D = type('Dv', (Domain, SingleAgent, Sequential, Simulation, Events, Initializable, Markovian, FullyObservable, cls), {})
    for v in (TransitionValue(cost=cost), TransitionValue(reward=-cost)):
        expect_eq(bool(D().check_value(v)), True if cls is Rewards else cost >= 0, 'check_value(%r)' % (v,))
    rec.state(c), rec.trans(2), rec.trace()


def build(ck):
    ck.rule = ('all operation sequences up to the depth on every combination of memory x dynamics x initialization x '
               'observability x agent level, in lockstep with a reference model, all random outcomes enumerated')
    depth = 4 if not THOROUGH else 5
    ck.scope = 'sequences of up to %d operations; memory of 0,1,2,3 or unbounded states; 5 states; 2 actions; 2 agents' % depth
    ck.run(list(cases_for(depth - 1)) + ([] if not THOROUGH else []), case, 'operation sequences', timeout=300, chunk=2)
    deep = [(cfg, depth) for cfg in itertools.product(MEMCLS, ('env', 'det', 'enum'), ('dinit',), ('trans',), (False,))]
    ck.run(deep, case, 'deeper sequences', timeout=600, chunk=1)
    ck.run(itertools.product(['get_goals', 'get_action_space', 'get_observation_space', 'get_initial_state',
                              'get_initial_state_distribution', 'get_constraints',
                              'is_transition_value_dependent_on_next_state'], (False, True)), constants_case, 'constants')
    ck.run([False, True], unrestricted_case, 'membership')
    ck.run(list(MEMCLS), events_case, 'events')
    ck.run(itertools.product([-2, -1, -1e-9, 0, 0.0, -0.0, np.float64(0), 1e-9, 1, 2.5, float('inf')], (Rewards, PositiveCosts)), value_case, 'values')
    ck.sample({'cfg': 'fin2,enum,uinit,part,single', 'ops': ['reset', 'step 0', 'step 1']})
