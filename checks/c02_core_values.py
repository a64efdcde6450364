"""C02: values, outcomes, distributions, spaces and constraints of the core."""
import itertools
import math
from fractions import Fraction

from mc import nondet
from mc.core import expect, expect_eq, THOROUGH

from skdecide.core import *

NUMS = [None, 0, 0.0, 1, -1, 2.5, -2.5, 7, -1e300, 1e-300, float('inf'), float('-inf'), Fraction(1, 3), True]


def tv_case(rec, c):
    r, k, how = c
    v = TransitionValue(r, k) if how == 'pos' else TransitionValue(reward=r, cost=k) if how == 'kw' else \
        TransitionValue(**{n: x for n, x in (('reward', r), ('cost', k)) if x is not None})
    if r is not None:
        want = (r, -r)
    elif k is not None:
        want = (-k, k)
    else:
        want = (0, 0)
    expect_eq((v.reward, v.cost), want, 'TransitionValue(%r, %r)' % (r, k))
    expect(v == TransitionValue(reward=want[0]) and v == TransitionValue(cost=want[1]), 'reward/cost equivalence of %r' % (v,))
    rec.state((r, k, how, 'tv')), rec.trans(), rec.trace()


OBS = [0, 's', None, (1, 2), [1], {'a': 1}, {'x': 's', 'y': 't'}, {}]


def out_case(rec, c):
    cls, obs, val, term, info = c
    first = 'observation' if cls is EnvironmentOutcome else 'state'
    kw = {first: obs}
    if val is not None:
        kw['value'] = val
    if term is not None:
        kw['termination'] = term
    if info is not None:
        kw['info'] = info
    for o in (cls(**kw), cls(obs, val, bool(term), info)):
        expect(getattr(o, first) is obs, 'observation/state of %r' % (o,))
        if val is not None:
            expect(o.value is val, 'value of %r' % (o,))
        elif isinstance(obs, dict):
            expect_eq(o.value, {k: TransitionValue() for k in obs}, 'default value per agent')
            expect(len(set(id(x) for x in o.value.values())) == len(obs), 'agents share one value object')
        else:
            expect_eq(o.value, TransitionValue(), 'default value')
        expect(o.termination is bool(term), 'termination of %r' % (o,))
        if info is not None:
            expect(o.info is info, 'info')
        elif isinstance(obs, dict):
            expect_eq(o.info, {k: None for k in obs}, 'default info per agent')
        else:
            expect(o.info is None, 'default info')
        d = o.asdict()
        expect_eq(list(d), [first, 'value', 'termination', 'info'], 'asdict keys')
        expect_eq((d[first], d['termination'], d['info']), (obs, bool(term), o.info), 'asdict values')
        t = o.astuple()
        expect_eq((len(t), t[0], t[2], t[3]), (4, obs, bool(term), o.info), 'astuple')
        r = o.replace(termination=not term)
        expect(r is not o and r.termination is (not term) and o.termination is bool(term), 'replace() termination')
        expect(getattr(r, first) is obs and r.value == o.value and r.info == o.info and type(r) is cls, 'replace keeps other fields')
        r = o.replace(**{first: 'new', 'value': TransitionValue(cost=4), 'info': 'i'})
        expect_eq((getattr(r, first), r.value.reward, r.info, r.termination), ('new', -4, 'i', bool(term)), 'replace')
        # two outcomes never share default objects
        o2 = cls(**kw)
        if val is None:
            expect(o2.value is not o.value, 'default value shared between outcomes')
        rec.trans(4)
    rec.state((cls, repr(obs), repr(val), term, repr(info))), rec.trace()


def dist_case(rec, weights):
    elems = ['e%d' % (i % 3) for i in range(len(weights))] if len(weights) > 3 else ['e%d' % i for i in range(len(weights))]
    vals = list(zip(elems, weights))
    d = DiscreteDistribution(list(vals))
    expect_eq([tuple(x) for x in d.get_values()], vals, 'get_values()')
    want = {}
    tot = sum(weights)
    for e, w in vals:
        if w:
            want[e] = want.get(e, 0) + w / tot
    if tot:
        got = {}
        for (res, e), tr, p in nondet.explore(d.sample, floats=[(i + 0.5) / 400 for i in range(400)]):
            expect(res == 'ok', 'sample() raised %r' % (e,))
            got[e] = got.get(e, 0) + p
            rec.trans()
        expect_eq(set(got), set(want), 'support of sample() for %r' % (vals,))
        for e in want:
            expect(abs(got[e] - want[e]) < 0.01, 'probability of %r is %r instead of %r for %r' % (e, got[e], want[e], vals))
    # the values may be of any type, even ones which cannot be hashed (as the states of several agents)
    objs = [{'agent': e} for e, w in vals]
    d = DiscreteDistribution([(o, w) for o, (e, w) in zip(objs, vals)])
    expect(all(x[0] is o and x[1] == w for x, o, (e, w) in zip(d.get_values(), objs, vals)) and len(d.get_values()) == len(objs),
           'get_values() of values which cannot be hashed')
    if tot:
        got = {}
        for (res, o), tr, p in nondet.explore(d.sample, floats=[(i + 0.5) / 400 for i in range(400)]):
            expect(res == 'ok', 'sample() raised %r' % (o,))
            got[o['agent']] = got.get(o['agent'], 0) + p
            rec.trans()
        for e in want:
            expect(abs(got.get(e, 0) - want[e]) < 0.01, 'probability of %r is %r instead of %r for %r' % (e, got.get(e), want[e], vals))
    rec.state(tuple(weights)), rec.trace()


def single_case(rec, v):
    d = SingleValueDistribution(v)
    expect(d.get_value() is v and d.sample() is v and isinstance(d, DiscreteDistribution), 'single value')
    gv = d.get_values()
    expect(len(gv) == 1 and gv[0][0] is v and gv[0][1] == 1, 'get_values of a single value distribution: %r' % (gv,))
    n = itertools.count()
    im = ImplicitDistribution(lambda: next(n))
    expect_eq([im.sample(), im.sample(), im.sample()], [0, 1, 2], 'implicit distribution calls its function each time')
    rec.state(repr(v)), rec.trans(4), rec.trace()


class Ctr(Constraint):
    def __init__(self, dep):
        self.dep = dep

    def _is_constraint_dependent_on_next_state_(self):
        return self.dep


def con_case(rec, c):
    ineq, bound, val, dep = c
    import operator
    op = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[ineq]
    seen = []

    def ev(m, a, s):
        seen.append((m, a, s))
        return val
    k = BoundConstraint(ev, ineq, bound, dep)
    for args, full in ((('m', 'a', 's'), ('m', 'a', 's')), (('m', 'a'), ('m', 'a', None))):
        del seen[:]
        expect(bool(k.check(*args)) is bool(op(val, bound)), '%r %s %r checked as %r' % (val, ineq, bound, k.check(*args)))
        expect(seen[0] == full, 'arguments given to the evaluation: %r' % (seen,))
        expect_eq(k.evaluate(*args), val, 'evaluate()')
    expect_eq((k.get_inequality(), k.get_bound(), k.is_constraint_dependent_on_next_state()), (ineq, bound, dep), 'accessors')
    k2 = BoundConstraint(ev, ineq, bound, not dep)
    expect_eq((k2.is_constraint_dependent_on_next_state(), k.is_constraint_dependent_on_next_state()), (not dep, dep),
              'next state dependency is per constraint')
    for res in (True, False):
        del seen[:]
        im = ImplicitConstraint(lambda m, a, s: (seen.append((m, a, s)), res)[1], dep)
        expect(im.check('m', 'a', 's') is res and im.check('m', 'a') is res, 'implicit check')
        expect_eq(seen, [('m', 'a', 's'), ('m', 'a', None)], 'implicit check arguments')
        expect_eq(im.is_constraint_dependent_on_next_state(), dep, 'implicit dependency')
    expect_eq([BoundConstraint(ev, ineq, bound).is_constraint_dependent_on_next_state(),
               ImplicitConstraint(ev).is_constraint_dependent_on_next_state()], [True, True], 'default dependency')
    cc = Ctr(dep)
    expect_eq(cc.is_constraint_dependent_on_next_state(), dep, 'dependency')
    cc.dep = not dep
    expect_eq(cc.is_constraint_dependent_on_next_state(), dep, 'cached dependency')
    for bad in ('=', '==', '', '=<', None):
        try:
            BoundConstraint(ev, bad, bound)
        except Exception:
            pass
        else:
            expect(False, 'inequality %r accepted' % (bad,))
    rec.state(c), rec.trans(10), rec.trace()


def space_case(rec, elems):
    class E(EnumerableSpace):
        def get_elements(self):
            return elems
    sp, im = E(), ImplicitSpace(lambda x: x in elems)
    univ = [0, 1, 2, 'a', None, (1,), 1.5]
    for x in univ:
        w = x in elems
        expect(bool(sp.contains(x)) is w and (x in sp) is w, 'enumerable space %r contains %r' % (elems, x))
        expect(bool(im.contains(x)) is w and (x in im) is w, 'implicit space %r contains %r' % (elems, x))
        em = EmptySpace()
        expect(list(em.get_elements()) == [], 'empty space has elements')
        expect((x in em) is False and em.contains(x) is False, 'empty space contains %r' % (x,))
        rec.trans(6)
    se = SerializableSpace()
    expect_eq(list(se.from_jsonable(se.to_jsonable(list(elems)))), list(elems), 'json round trip')
    rec.state(repr(elems)), rec.trace()


def mem_case(rec, c):
    init, maxlen, app = c
    m = Memory(init, maxlen=maxlen)
    ref = list(init)[-maxlen:] if maxlen else ([] if maxlen == 0 else list(init))
    expect_eq(list(m), ref, 'memory content')
    for a in app:
        m.append(a)
        ref = (ref + [a])
        ref = ref[-maxlen:] if maxlen else ([] if maxlen == 0 else ref)
        expect_eq(list(m), ref, 'memory after append')
        if ref:
            expect_eq(m[-1], ref[-1], 'last state')
    rec.state(c), rec.trans(len(app)), rec.trace()


def build(ck):
    ck.rule = 'all combinations of small values for every core value class; sampling measured over all random outcomes'
    ck.scope = '14x14 reward/cost pairs, 8 observation shapes, weight vectors of length <= 4 over {0,1,2,3,0.5}, 4 inequalities'
    ck.run(itertools.product(NUMS, NUMS, ('pos', 'kw', 'omit')), tv_case, 'transition values')
    tv = TransitionValue(reward=3)
    ck.run(itertools.product((EnvironmentOutcome, TransitionOutcome), OBS, (None, tv, {'a': tv, 'b': tv}),
                             (None, True, False), (None, 'i', {'a': 1})), out_case, 'outcomes')
    ws = [w for n in range(1, 5 if not THOROUGH else 6) for w in itertools.product((0, 1, 2, 3, 0.5), repeat=n) if sum(w)]
    ck.run(ws, dist_case, 'discrete distributions')
    ck.run([0, None, 's', (1,), [1], {'a': 1}, False], single_case, 'single value')
    vals = [-1, 0, 0.0, 1, 2, 2.5, -0.5, float('inf')]
    ck.run(itertools.product(('<', '<=', '>', '>='), vals, vals, (True, False)), con_case, 'constraints')
    ck.run([t for n in range(0, 4) for t in itertools.combinations([0, 2, 'a', None, (1,)], n)] + [[1, 2], range(3)], space_case, 'spaces')
    ck.run([(i, m, a) for i in ((), (1,), (1, 2, 3)) for m in (None, 0, 1, 2, 3) for a in itertools.product((7, 8), repeat=3)], mem_case, 'memory')
    ck.sample('DiscreteDistribution weights (0, 1, 2, 0.5): sampling measured over all outcomes')
