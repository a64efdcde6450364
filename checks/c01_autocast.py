"""C01: autocast between abstraction levels.

Enumerates all ordered pairs of levels (agent x concurrency x memory) x every public signature of the domain and
solver interface (plus synthetic nestings) x value shapes x call styles, and compares what the implementation receives
and what the caller gets with a reference conversion written on hand-made type trees."""
from __future__ import annotations

import itertools
from typing import *

from mc.core import expect, expect_eq
from mc import nondet

import skdecide
from skdecide import core as skc
from skdecide.core import *
from skdecide.core import autocast
from skdecide.builders.domain import *
from skdecide.domains import Domain
from skdecide.solvers import Solver
from skdecide.builders.solver import *

AG = {'multi': MultiAgent, 'single': SingleAgent}
CO = {'par': Parallel, 'seq': Sequential}
ME = {'hist': History, 'finite': FiniteHistory, 'markov': Markovian, 'memless': Memoryless}
LEVELS = list(itertools.product(AG, CO, ME))

# ----------------------------------------------------------------------------------------------- hand-made type trees
X = ('leaf',)
A = lambda t: ('agent', t)
C = lambda t: ('conc', t)
M = lambda t: ('mem', t)
O = lambda t: ('opt', t)
L = lambda t: ('list', t)
DI = lambda t: ('dist', t)
ACT = A(C(X))
OUT = ('outcome', A(X), A(X), A(X))
CON = ('constraint', M(X), ACT, X)
PLAIN = ('plain',)


def struct(kind, level):
    if kind == 'agent':
        return level[0] == 'multi'
    if kind == 'conc':
        return level[1] == 'par'
    if kind == 'mem':
        return level[2] in ('hist', 'finite')


def needs(t, a, b):
    if t[0] in ('agent', 'conc', 'mem'):
        return struct(t[0], a) != struct(t[0], b) or needs(t[1], a, b)
    return any(needs(s, a, b) for s in t[1:])


def gen(t, level, var):
    """Values of type t at a level (var: variant knobs)."""
    k = t[0]
    if k in ('leaf', 'plain'):
        return var['leaf']()
    if k == 'agent':
        if struct('agent', level):
            return {n: gen(t[1], level, var) for n in var['agents']}
        return gen(t[1], level, var)
    if k == 'conc':
        if struct('conc', level):
            return [gen(t[1], level, var) for _ in range(var['n'])]
        return gen(t[1], level, var)
    if k == 'mem':
        if struct('mem', level):
            return Memory([gen(t[1], level, var) for _ in range(var['m'])])
        return gen(t[1], level, var)
    if k == 'opt':
        return None if var['none'] else gen(t[1], level, var)
    if k == 'list':
        return [gen(t[1], level, var) for _ in range(2)]
    if k == 'dist':
        if var['dist'] == 'single':
            return SingleValueDistribution(gen(t[1], level, var))
        if var['dist'] == 'discrete':
            return DiscreteDistribution([(gen(t[1], level, var), 0.25), (gen(t[1], level, var), 0.75)])
        v = gen(t[1], level, var)
        return ImplicitDistribution(lambda: v)
    if k == 'outcome':
        cls = var['outcome']
        tv = {**var, 'leaf': lambda: TransitionValue(reward=var['leaf']() and 1 or 2)}
        return cls(gen(t[1], level, var), gen(t[2], level, tv), var['term'], gen(t[3], level, var))
    if k == 'constraint':
        log = var['log']
        if var['constraint'] == 'implicit':
            return ImplicitConstraint(lambda m, a, s: (log.append((m, a, s)), True)[1], var['dep'])
        return BoundConstraint(lambda m, a, s: (log.append((m, a, s)), 7)[1], var['ineq'], 7, var['dep'])


def ref(v, t, a, b):
    """Reference conversion of a value of type t from level a to level b (containers only; see `check_val`)."""
    k = t[0]
    if k in ('leaf', 'plain') or not needs(t, a, b):
        return v
    if k in ('agent', 'conc', 'mem'):
        sa, sb = struct(k, a), struct(k, b)
        if not sa and not sb:
            return ref(v, t[1], a, b)
        if sa and not sb:
            return ref(v[0] if k != 'agent' else list(v.values())[0], t[1], a, b)
        if not sa and sb:
            r = ref(v, t[1], a, b)
            return {'agent': r} if k == 'agent' else [r] if k == 'conc' else Memory([r])
        if k == 'agent':
            return {n: ref(x, t[1], a, b) for n, x in v.items()}
        r = [ref(x, t[1], a, b) for x in v]
        return r if k == 'conc' else Memory(r)
    if k == 'opt':
        return None if v is None else ref(v, t[1], a, b)
    if k == 'list':
        return [ref(x, t[1], a, b) for x in v]
    raise AssertionError(k)


def strict_eq(x, y):
    if isinstance(y, Memory) != isinstance(x, Memory) or isinstance(x, dict) != isinstance(y, dict) \
            or isinstance(x, list) != isinstance(y, list):
        return False
    if isinstance(y, (Memory, list)):
        return len(x) == len(y) and all(strict_eq(p, q) for p, q in zip(x, y))
    if isinstance(y, dict):
        return list(x) == list(y) and all(strict_eq(x[k], y[k]) for k in y)
    return x is y or (type(x) is type(y) and x == y)


def check_val(got, orig, t, a, b, what, var):
    """got must be orig (of type t at level a) converted to level b."""
    k = t[0]
    if k == 'dist':
        if isinstance(orig, SingleValueDistribution):
            expect(isinstance(got, SingleValueDistribution), lambda: '%s: %r is not a single value distribution' % (what, got))
            check_val(got.get_value(), orig.get_value(), t[1], a, b, what, var)
        if isinstance(orig, DiscreteDistribution):
            expect(isinstance(got, DiscreteDistribution), lambda: '%s: %r is not a discrete distribution' % (what, got))
            gv, ov = got.get_values(), orig.get_values()
            expect_eq(len(gv), len(ov), what + ' distribution size')
            for (g, gp), (o, op) in zip(gv, ov):
                expect_eq(gp, op, what + ' probability')
                check_val(g, o, t[1], a, b, what, var)
            # the sampled values are converted too
            for (res, val), _, _p in nondet.explore(got.sample):
                expect(res == 'ok' and any(strict_eq(val, g) for g, _ in gv), lambda: what + ' sample %r' % (val,))
        else:
            check_val(got.sample(), orig.sample(), t[1], a, b, what + '.sample()', var)
    elif k == 'outcome':
        expect_eq(type(got), type(orig), what + ' outcome type')
        first = 'observation' if isinstance(orig, EnvironmentOutcome) else 'state'
        check_val(getattr(got, first), getattr(orig, first), t[1], a, b, what + '.' + first, var)
        check_val(got.value, orig.value, t[2], a, b, what + '.value', var)
        check_val(got.info, orig.info, t[3], a, b, what + '.info', var)
        expect(got.termination is orig.termination, what + '.termination changed')
    elif k == 'constraint':
        expect_eq(type(got), type(orig), what + ' constraint type')
        expect_eq(got.is_constraint_dependent_on_next_state(), var['dep'], what + ' next state dependency')
        if isinstance(orig, BoundConstraint):
            expect_eq((got.get_inequality(), got.get_bound()), (orig.get_inequality(), orig.get_bound()), what + ' bound')
        m, ac, s = gen(t[1], b, var), gen(t[2], b, var), gen(t[3], b, var)
        for st in (s, None):
            del var['log'][:]
            r = got.check(m, ac, st)
            want = True if isinstance(orig, ImplicitConstraint) else var['ineq'] in ('<=', '>=')
            expect_eq(r, want, what + ' check()')
            expect_eq(len(var['log']), 1, what + ' number of evaluations')
            for g, o, tt in zip(var['log'][0], (m, ac, st), t[1:]):
                check_val(g, o, tt, b, a, what + ' constraint argument', var)
            if isinstance(orig, BoundConstraint):
                expect_eq(got.evaluate(m, ac, st), 7, what + ' evaluate()')
    elif k == 'list' and t[1][0] in ('dist', 'outcome', 'constraint'):
        expect_eq(len(got), len(orig), what + ' length')
        for g, o in zip(got, orig):
            check_val(g, o, t[1], a, b, what, var)
    else:
        want = ref(orig, t, a, b)
        expect(strict_eq(got, want), lambda: '%s: got %r, expected %r (from %r)' % (what, got, want, orig))


# ----------------------------------------------------------------------------------- public interface, by hand
DOM_SIGS = {  # method: (private hook, [(arg, type)], return)
    'step': ('_step', [('action', ACT)], OUT),
    'set_memory': ('_set_memory', [('memory', M(X))], PLAIN),
    'sample': ('_sample', [('memory', M(X)), ('action', ACT)], OUT),
    'get_next_state_distribution': ('_get_next_state_distribution', [('memory', M(X)), ('action', ACT)], DI(X)),
    'get_transition_value': ('_get_transition_value', [('memory', M(X)), ('action', ACT), ('next_state', O(X))], A(X)),
    'is_terminal': ('_is_terminal', [('state', X)], PLAIN),
    'get_next_state': ('_get_next_state', [('memory', M(X)), ('action', ACT)], X),
    'get_goals': ('_get_goals', [], A(X)),
    'is_goal': ('_is_goal', [('observation', A(X))], PLAIN),
    'get_observation_space': ('_get_observation_space', [], A(X)),
    'is_observation': ('_is_observation', [('observation', A(X))], PLAIN),
    'get_observation_distribution': ('_get_observation_distribution', [('state', X), ('action', O(ACT))], DI(A(X))),
    'get_observation': ('_get_observation', [('state', X), ('action', O(ACT))], A(X)),
    'check_value': ('_check_value', [('value', X)], PLAIN),
    'get_enabled_events': ('_get_enabled_events', [('memory', O(M(X)))], X),
    'is_enabled_event': ('_is_enabled_event', [('event', X), ('memory', O(M(X)))], PLAIN),
    'get_action_space': ('_get_action_space', [], A(X)),
    'is_action': ('_is_action', [('event', X)], PLAIN),
    'get_applicable_actions': ('_get_applicable_actions', [('memory', O(M(X)))], A(X)),
    'is_applicable_action': ('_is_applicable_action', [('action', A(X)), ('memory', O(M(X)))], PLAIN),
    'reset': ('_reset', [], A(X)),
    'get_initial_state_distribution': ('_get_initial_state_distribution', [], DI(X)),
    'get_initial_state': ('_get_initial_state', [], X),
    'render': ('_render', [('memory', O(M(X)))], PLAIN),
    'get_constraints': ('_get_constraints', [], L(CON)),
}
SOL_SIGS = {
    'solve_from': ('_solve_from', [('memory', M(X))], PLAIN),
    'get_utility': ('_get_utility', [('observation', A(X))], PLAIN),
    'get_q_value': ('_get_q_value', [('observation', A(X)), ('action', ACT)], PLAIN),
    'sample_action': ('_sample_action', [('observation', A(X))], ACT),
    'is_policy_defined_for': ('_is_policy_defined_for', [('observation', A(X))], PLAIN),
    'get_next_action_distribution': ('_get_next_action_distribution', [('observation', A(X))], DI(ACT)),
    'get_next_action': ('_get_next_action', [('observation', A(X))], ACT),
}
SYN = {  # synthetic annotations: hint text -> type tree
    'D.T_memory[D.T_state]': M(X), 'D.T_agent[D.T_concurrency[D.T_event]]': ACT,
    'D.T_memory[D.T_agent[D.T_observation]]': M(A(X)), 'D.T_memory[D.T_agent[D.T_concurrency[D.T_event]]]': M(ACT),
    'Optional[D.T_agent[D.T_concurrency[D.T_event]]]': O(ACT), 'List[D.T_agent[D.T_observation]]': L(A(X)),
    'List[D.T_memory[D.T_state]]': L(M(X)), 'Optional[List[D.T_concurrency[D.T_event]]]': O(L(C(X))),
    'D.T_concurrency[D.T_agent[D.T_event]]': C(A(X)), 'List[ D.T_concurrency[ D.T_event ] ]': L(C(X)),
    'Distribution[D.T_agent[D.T_concurrency[D.T_event]]]': DI(ACT), 'Distribution[D.T_memory[D.T_state]]': DI(M(X)),
    'EnvironmentOutcome[D.T_agent[D.T_observation], D.T_agent[TransitionValue[D.T_value]], D.T_agent[D.T_info]]': OUT,
    'TransitionOutcome[D.T_agent[D.T_state], D.T_agent[TransitionValue[D.T_value]], D.T_agent[D.T_info]]': OUT,
    'List[Constraint[D.T_memory[D.T_state], D.T_agent[D.T_concurrency[D.T_event]], D.T_state]]': L(CON),
    'Constraint[D.T_memory[D.T_state], D.T_agent[D.T_concurrency[D.T_event]], D.T_state]': CON,
    'D.T_state': X, 'int': PLAIN,
}


def variants(tier_thorough):
    mk = [lambda c=itertools.count(): ('v', next(c)), lambda c=itertools.count(): {'k%d' % next(c): [1]},
          lambda c=itertools.count(): [next(c), 'z'], lambda c=itertools.count(): None if next(c) % 2 else 0]
    base = dict(agents=('agent',), n=1, m=1, none=False, dist='single', term=False, constraint='implicit', dep=True,
                ineq='<=', outcome=EnvironmentOutcome)
    alts = [dict(), dict(agents=('b', 'a'), n=2, m=2, dist='discrete', term=True, dep=False, constraint='bound',
                         outcome=TransitionOutcome),
            dict(none=True, dist='implicit', constraint='bound', ineq='>', m=3, n=3, agents=('x', 'agent', 'c')),
            dict(constraint='bound', ineq='>=', dist='discrete'), dict(constraint='bound', ineq='<', dep=False, term=True),
            dict(dep=False, dist='discrete', agents=('y', 'z'), outcome=TransitionOutcome)]
    out = []
    for i, alt in enumerate(alts):
        for j, leaf in enumerate(mk):
            if j and not tier_thorough and (i > 1 or j > 1 and i > 0):
                continue
            out.append({**base, **alt, 'leaf': leaf, 'log': []})
    return out


def make_domain(level):
    ag, co, me = level
    Dm = type('Dm', (Domain, AG[ag], CO[co], Constrained, DeterministicTransitions, UnrestrictedActions, Goals,
                     DeterministicInitialized, ME[me], FullyObservable, Renderable, PositiveCosts), {})
    return Dm


def ann_of(hint):
    """A function with one argument and one result annotated by a hint text, written in `D.` form."""
    ns = {'D': skc.D}
    exec('from __future__ import annotations\ndef f(x: %s, y: int = 3):\n    return CALL(x, y)\n'
         'def g(x: int) -> %s:\n    return CALL(x)\n' % (hint, hint), ns)
    return ns


def case(rec, c):
    kind, la, lb = c
    Da, Db = make_domain(la), make_domain(lb)
    vs = variants(kind[2])
    if kind[0] == 'dom':
        sigs = DOM_SIGS
    elif kind[0] == 'sol':
        sigs = SOL_SIGS
    if kind[0] in ('dom', 'sol'):
        for name, (hook, args, ret) in sigs.items():
            for nv, var in enumerate(vs):
                for style in ('pos', 'kw', 'mix') if nv < 2 or kind[2] else ('pos',):
                    if style == 'mix' and len(args) < 2 or style == 'kw' and not args:
                        continue
                    state = {}

                    def impl(self, *a, **k):
                        state['args'] = a + tuple(k.values())
                        return state['ret']
                    if kind[0] == 'dom':
                        obj = type('Dx', (Da,), {hook: impl})()
                        skdecide.core.autocast_all(obj, obj, Db if kind[1] else Db())
                    else:
                        Sx = type('Sx', (Solver, DeterministicPolicies, QValues, Restorable),
                                  {hook: impl, 'T_domain': Da})
                        obj = Sx()
                        skdecide.core.autocast_all(obj, obj.T_domain, Db if kind[1] else Db())
                    vals = [gen(t, lb, var) for _, t in args]
                    state['ret'] = gen(ret, la, var)
                    if style == 'pos':
                        r = getattr(obj, name)(*vals)
                    elif style == 'kw':
                        r = getattr(obj, name)(**{n: v for (n, _), v in zip(args, vals)})
                    else:
                        r = getattr(obj, name)(vals[0], **{n: v for (n, _), v in list(zip(args, vals))[1:]})
                    what = '%s.%s %s->%s [%s]' % (kind[0], name, la, lb, style)
                    got = state['args']
                    expect(len(got) >= len(vals), what + ': arguments lost')
                    for g, v, (n, t) in zip(got, vals, args):
                        check_val(g, v, t, lb, la, what + ' argument ' + n, var)
                    if name != 'set_memory' and name != 'solve_from':
                        check_val(r, state['ret'], ret, la, lb, what + ' result', var)
                    rec.trans()
                    rec.trace()
                    rec.state((name, la, lb, style, str(sorted((k, str(v)) for k, v in var.items() if k not in ('leaf', 'log'))), id(var['leaf'])))
                    rec.outcome((name, needs(ret, la, lb), [needs(t, la, lb) for _, t in args]))
                    # omitted optional arguments
                    if style == 'pos' and args and args[-1][1][0] == 'opt' and kind[0] == 'dom':
                        getattr(obj, name)(*vals[:-1])
                        expect(state['args'][len(vals) - 1:] in ((), (None,)), what + ': omitted argument became %r' % (state['args'],))
    else:
        for hint, t in SYN.items():
            for var in vs:
                ns = ann_of(hint)
                seen = {}

                def CALL(*a):
                    seen['a'] = a
                    return seen.get('ret')
                ns['CALL'] = CALL
                f = autocast(ns['f'], Da, Db)
                v = gen(t, lb, var)
                for call in (lambda: f(v), lambda: f(x=v), lambda: f(v, y=3), lambda: f(v, 3)):
                    call()
                    check_val(seen['a'][0], v, t, lb, la, 'autocast %s arg %s->%s' % (hint, la, lb), var)
                    expect(seen['a'][1] == 3, 'other argument lost')
                g = autocast(ns['g'], Da, Db)
                seen['ret'] = gen(t, la, var)
                r = g(11)
                expect(seen['a'] == (11,), 'unannotated argument changed: %r' % (seen['a'],))
                check_val(r, seen['ret'], t, la, lb, 'autocast %s result %s->%s' % (hint, la, lb), var)
                # round trip: converting back restores what can be restored
                if t[0] not in ('dist', 'outcome', 'constraint', 'list') or t == L(A(X)):
                    back = autocast(ns['g'], Db, Da)
                    seen['ret'] = r
                    rb = back(11)
                    orig = gen(t, la, {**var, 'leaf': var['leaf']})
                    if var['agents'] == ('agent',) and var['n'] == 1 and var['m'] == 1:
                        seen['ret'] = None
                        o2 = ref(ref(r, t, lb, la), t, la, lb)
                        expect(strict_eq(rb, ref(r, t, lb, la)), 'round trip %s' % hint)
                        expect(strict_eq(o2, r), 'round trip')
                # names/metadata of the wrapped function survive
                expect(f.__name__ == 'f' and g.__name__ == 'g', 'function metadata lost')
                rec.trans(6)
                rec.trace()
                rec.state((hint, la, lb, id(var['leaf']), var['n'], var['none']))


def solve_case(rec, c):
    """Solver.solve / Domain.solve_with: the domain handed to the solver speaks the solver's level, the solver handed
    back speaks the domain's level; load path as well."""
    la, lb, via = c   # la: domain level, lb: solver level
    log = []

    class MyD(make_domain(la)):
        def _get_next_state(self, memory, action):
            log.append(('ns', memory, action))
            return ('s', 1)

        def _get_goals_(self):
            return {'g1': 'G1', 'g2': 'G2'} if struct('agent', la) else 'G1'

    class MyS(Solver, DeterministicPolicies, Restorable):
        T_domain = make_domain(lb)

        def _solve_domain(self, domain_factory):
            self.d = domain_factory()
            self.d2 = domain_factory()

        def _load(self, path, domain_factory):
            log.append(('load', path))
            self._solve_domain(domain_factory)

        def _get_next_action(self, observation):
            log.append(('act', observation))
            return gen(ACT, lb, var)

        def _is_policy_defined_for(self, observation):
            return True

    var = {**variants(False)[0]}
    s = MyS()
    if via == 'solve':
        s.solve(lambda: MyD())
        skdecide.core.autocast_all(s, s.T_domain, MyD)
    elif via == 'solve_with':
        s = MyD.solve_with(s)
    elif via == 'solve_with_factory':
        made = []
        s = MyD.solve_with(s, lambda: made.append(1) or MyD())
        expect_eq(len(made), 2, 'the given domain factory is used')
    else:
        s = MyD.solve_with(s, load_path='some/path')
        expect_eq([x for x in log if x[0] == 'load'], [('load', 'some/path')], 'load called')
    for d in (s.d, s.d2):
        m, a = gen(M(X), lb, var), gen(ACT, lb, var)
        r = d.get_next_state(m, a)
        check_val(log[-1][1], m, M(X), lb, la, 'solver side memory', var)
        check_val(log[-1][2], a, ACT, lb, la, 'solver side action', var)
        expect_eq(r, ('s', 1), 'next state')
        g = d.get_goals()
        want = ({'g1': 'G1', 'g2': 'G2'} if struct('agent', la) else {'agent': 'G1'}) if struct('agent', lb) else 'G1'
        expect_eq(g, want, 'goals seen by solver')
    expect(s.d is not s.d2, 'factory returned twice the same domain')
    o = gen(A(X), la, var)
    r = s.get_next_action(o)
    check_val(log[-1][1], o, A(X), la, lb, 'observation given to the solver', var)
    want = None
    # the action the domain gets has the structure of the domain's level
    x = r
    if struct('agent', la):
        expect(isinstance(x, dict) and len(x) == 1, 'action structure %r' % (r,))
        x = list(x.values())[0]
    if struct('conc', la):
        expect(isinstance(x, list) and len(x) == 1, 'action structure %r' % (r,))
        x = x[0]
    expect(isinstance(x, tuple) and x[0] == 'v', 'action structure %r' % (r,))
    dist = s.get_next_action_distribution(o)
    smp = s.sample_action(o)
    for y in (dist.get_value(), smp):
        expect(strict_eq(type(y), type(r)), 'action structure via distribution %r' % (y,))
    rec.trans(8)
    rec.trace()
    rec.state((la, lb, via))


def build(ck):
    from mc.core import THOROUGH
    ck.rule = ('every ordered pair of abstraction levels (2 agent x 2 concurrency x 4 memory levels) x every public '
               'signature x value variants x call styles; reference conversion on hand-made type trees')
    ck.scope = 'all 256 level pairs; up to 3 agents, 3 concurrent events, memories of 3 states; nesting depth 3'
    pairs = list(itertools.product(LEVELS, LEVELS))
    cases = [((k, inst, THOROUGH), a, b) for k in ('dom', 'sol', 'syn') for inst in ((True, False) if k != 'syn' and THOROUGH else (k != 'dom',))
             for a, b in pairs]
    ck.run(cases, case, 'signatures', timeout=120)
    ck.run([(a, b, v) for a, b in pairs for v in ('solve', 'solve_with', 'solve_with_factory', 'load')], solve_case, 'solve_with')
    ck.sample({'pair': 'multi,par,hist -> single,seq,markov', 'call': 'get_next_state(memory, action)'})
