"""C04: which solvers match which domains."""
from __future__ import annotations

import itertools

from mc.core import expect, expect_eq, THOROUGH

import skdecide
from skdecide.builders.domain import *
from skdecide import domains as dm
from skdecide.domains import Domain
from skdecide.solvers import Solver, DeterministicPolicySolver
from skdecide.builders.solver import *
from skdecide.utils import match_solvers, get_registered_solvers, load_registered_solver

CATS = [
    [MultiAgent, SingleAgent], [Parallel, Sequential], [None, Constrained],
    [Environment, Simulation, UncertainTransitions, EnumerableTransitions, DeterministicTransitions],
    [Events, Actions, UnrestrictedActions], [None, Goals],
    [None, Initializable, UncertainInitialized, DeterministicInitialized],
    [History, FiniteHistory, Markovian, Memoryless],
    [PartiallyObservable, TransformedObservable, FullyObservable], [None, Renderable], [Rewards, PositiveCosts]]
TOP = tuple(len(c) - 1 for c in CATS)
BOT = (0,) * len(CATS)
# the published hierarchy of characteristics
ALTERNATES = {
    'RLDomain': (1, 1, 0, 0, 1, 0, 1, 2, 1, 0, 0), 'MultiAgentRLDomain': (0, 1, 0, 0, 1, 0, 1, 2, 1, 0, 0),
    'StatelessSimulatorDomain': (1, 1, 0, 1, 1, 0, 0, 2, 1, 0, 0), 'MDPDomain': (1, 1, 0, 3, 1, 0, 3, 2, 2, 0, 0),
    'POMDPDomain': (1, 1, 0, 3, 1, 0, 2, 2, 0, 0, 0), 'GoalMDPDomain': (1, 1, 0, 3, 1, 1, 3, 2, 2, 0, 1),
    'GoalPOMDPDomain': (1, 1, 0, 3, 1, 1, 2, 2, 0, 0, 1), 'DeterministicPlanningDomain': (1, 1, 0, 4, 1, 1, 3, 2, 2, 0, 1)}

_cache = {}


def dom(vec, order=0):
    k = (vec, order)
    if k not in _cache:
        bases = [CATS[i][v] for i, v in enumerate(vec) if CATS[i][v] is not None]
        if order:
            bases.reverse()
        # C3 linearization: `Domain` first as documented
        _cache[k] = type('D' + ''.join(map(str, vec)), (Domain,) + tuple(bases), {})
    return _cache[k]


def near(base, k):
    out = set()
    for cats in itertools.combinations(range(len(CATS)), k):
        for lv in itertools.product(*[range(len(CATS[i])) for i in cats]):
            v = list(base)
            for i, l in zip(cats, lv):
                v[i] = l
            out.add(tuple(v))
    return out


def reqs(vec):
    return {CATS[i][v] for i, v in enumerate(vec) if CATS[i][v] is not None}


def req_case(rec, vec):
    for order in (0, 1):
        try:
            T = dom(vec, order)
        except TypeError:  # no consistent linearization: not a legal Python class
            continue
        for Td in (T, type('Sub', (T,), {}), type('SubSub', (type('S2', (T,), {}),), {'x': 1})):
            S = type('S', (Solver,), {'T_domain': Td})
            r = S.get_domain_requirements()
            expect_eq(len(r), len(set(r)), 'duplicated requirements')
            expect_eq(set(r), reqs(vec), 'requirements of a solver for %s' % (vec,))
            rec.trans()
    rec.state(vec), rec.trace()


def match_case(rec, vec):
    """vec: the solver's domain; all domains of the pool."""
    S = type('S', (Solver, DeterministicPolicies), {'T_domain': dom(vec)})
    Sno = type('Sno', (S,), {'_check_domain_additional': classmethod(lambda cls, d: False)})
    sel = []
    Sel = type('Ssel', (S,), {'_check_domain_additional': classmethod(lambda cls, d: (sel.append(d), d.flag)[1])})
    n = 0
    for dv in POOL:
        d = dom(dv)()
        want = all(x >= y for x, y in zip(dv, vec))
        got = S.check_domain(d)
        expect(bool(got) is want, lambda: 'check_domain: solver for %s, domain %s: %r' % (vec, dv, got))
        n += 1
        if n % 7 == 0 or want:
            expect(not Sno.check_domain(d), 'additional check ignored')
            for fl in (True, False):
                d.flag = fl
                del sel[:]
                expect(bool(Sel.check_domain(d)) is (want and fl), lambda: 'additional check: %s %s' % (vec, dv))
                expect(all(x is d for x in sel), 'additional check applied to another domain')
        rec.trans()
        rec.outcome(want)
    rec.state(vec), rec.trace(n)


def list_case(rec, dv):
    """match_solvers keeps exactly the candidates accepting the domain, in order, for any iterable of candidates."""
    d = dom(dv)()
    for sub in SUBSETS:
        S = [SOLVERS[i] for i in sub]
        want = [s for s in S if all(x >= y for x, y in zip(dv, s.vec))]
        for cand in (list(S), tuple(S), (s for s in S), iter(S)):
            expect_eq(match_solvers(d, cand), want, 'match_solvers on %s' % (dv,))
            rec.trans()
    expect_eq(match_solvers(d, []), [], 'no candidate')
    rec.state(dv), rec.trace()


def alt_case(rec, name):
    cls = getattr(dm, name)
    vec = ALTERNATES[name]
    S = type('S', (Solver,), {'T_domain': cls})
    expect_eq(set(S.get_domain_requirements()), reqs(vec), 'characteristics of %s' % name)
    inst = cls()
    for i, c in enumerate(CATS):
        for l, k in enumerate(c):
            if k is not None:
                expect(isinstance(inst, k) is (l <= vec[i]), '%s and %s' % (name, k.__name__))
        rec.trans()
    # refining an alternate class, adding a user defined mixin
    class Mixin:
        pass

    class Ref(cls, Memoryless, Renderable, Mixin):
        pass
    S2 = type('S2', (Solver,), {'T_domain': Ref})
    v2 = list(vec)
    v2[7], v2[9] = 3, 1
    expect_eq(set(S2.get_domain_requirements()), reqs(v2) | {Mixin}, 'refined %s' % name)
    expect(S.check_domain(Ref()) and not S2.check_domain(inst), 'refined %s matching' % name)
    rec.state(name), rec.trace()


def ctx_case(rec, c):
    log = []

    class S(Solver):
        def _initialize(self):
            log.append('init')

        def _cleanup(self):
            log.append('clean')

        def _reset(self):
            log.append('reset')

        def _solve_from(self, memory):
            log.append(('from', memory))
    s = S()
    with s as t:
        expect(t is s and log == ['init'], 'entering a solver context')
        s.reset()
        s.solve_from('m')
    expect_eq(log, ['init', 'reset', ('from', 'm'), 'clean'], 'solver life cycle')
    try:
        with S() as t:
            raise KeyError('x')
    except KeyError:
        pass
    else:
        expect(False, 'exception swallowed by the solver context')
    expect_eq(log[-1], 'clean', 'cleanup on error')

    class P(Solver, DeterministicPolicies):
        def _get_next_action(self, o):
            return ('act', o)
    p = P()
    for o in (0, None, 's'):
        expect_eq((p.get_next_action(o), p.sample_action(o), p.get_next_action_distribution(o).get_value()),
                  (('act', o),) * 3, 'deterministic policy')
    from mc import nondet
    from skdecide.core import DiscreteDistribution

    class U(Solver, UncertainPolicies):
        def _get_next_action_distribution(self, o):
            return DiscreteDistribution([((o, 'a'), 0.25), ((o, 'b'), 0.75)])
    got = {}
    for (k, r), _t, pr in nondet.explore(lambda: U().sample_action(3)):
        got[r] = got.get(r, 0) + pr
    expect_eq(got, {(3, 'a'): 0.25, (3, 'b'): 0.75}, 'sampled policy')
    rec.state('ctx'), rec.trans(8), rec.trace()


POOL, SUBSETS, SOLVERS = [], [], []


def build(ck):
    global POOL, SUBSETS, SOLVERS
    ck.rule = 'solver domain levels x domain levels over the whole hierarchy of characteristics'
    ck.scope = 'solver domains: all within 2 characteristics of the least/most specific and of the standard classes; domains within 3'
    k = 3 if THOROUGH else 2
    pool = near(BOT, 2) | near(TOP, 2)
    for v in ALTERNATES.values():
        pool |= near(v, 1)
    if THOROUGH:
        pool |= near(BOT, 3) | near(TOP, 3)
    POOL = sorted(pool)
    for v in POOL:
        dom(v)
    req = near(BOT, 2) | near(TOP, 2) | set(ALTERNATES.values())
    if THOROUGH:
        req |= near(BOT, 3) | near(TOP, 3)
    ck.run(sorted(req), req_case, 'requirements')
    solv = near(BOT, 1) | near(TOP, 1) | set(ALTERNATES.values()) | (near(BOT, 2) if True else set())
    ck.run(sorted(solv), match_case, 'matching')
    for v in sorted(near(BOT, 1))[::2] + sorted(near(TOP, 1))[::3] + list(ALTERNATES.values()):
        SOLVERS.append(type('S', (Solver,), {'T_domain': dom(v), 'vec': v}))
    n = len(SOLVERS)
    SUBSETS = [tuple(range(n)), tuple(reversed(range(n))), tuple(range(0, n, 2)), (0, 0, n - 1, n - 1)]
    ck.run(POOL, list_case, 'match_solvers')
    ck.run(list(ALTERNATES), alt_case, 'alternate classes')
    ck.run([0], ctx_case, 'solver life cycle')
    ck.extra['domains'] = len(POOL)
    ck.sample({'solver': ALTERNATES['MDPDomain'], 'domain': TOP})
