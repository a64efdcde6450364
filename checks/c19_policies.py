"""C19: policies of scheduling (pile, meta) choose what they announce, and policy evaluation gives the exact expectations."""
import itertools
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from checks import schedref as R
from checks.c10_scheduling import succ_of, DAGS3
from checks.c18_explorers import Unc, NAMES, ACTS, unc_tables
from skdecide.builders.solver.policy import DeterministicPolicies
from skdecide.hub.solver.policy_evaluators import policy_evaluator as PE
from skdecide.hub.solver.pile_policy.pile_policy import PilePolicy, GreedyChoice
from skdecide.hub.solver.meta_policy.meta_policies import MetaPolicy


class Table(DeterministicPolicies):
    """Any policy given as a function; it records what it is asked"""

    def __init__(self, fn):
        self.fn, self.asked = fn, []

    def _get_next_action(self, observation):
        self.asked.append((observation, getattr(observation, 't', None)))
        return self.fn(observation)

    def _is_policy_defined_for(self, observation):
        return True

    def reset(self):
        pass


# ------------------------------------------------------------------------------------------------ expected costs
def solve(trans, goals, terminal, pol, init):
    """states the policy expands, successors, and the value of the states which surely reach the goals in boundedly many steps"""
    seen, todo, succ = set(), [init], {}
    while todo:
        s = todo.pop()
        if s in seen or s in goals or s in terminal:
            continue
        seen.add(s)
        succ[s] = [(t, p, c) for t, p, c in trans[s][pol[s]]]
        todo += [t for t, p, c in succ[s] if p]
    val = {g: 0. for g in goals}
    while True:
        new = {s: sum(p * (c + val[t]) for t, p, c in succ[s] if p) for s in seen if s not in val and all(t in val for t, p, c in succ[s] if p)}
        if not new:
            break
        val.update(new)
    reached = {t for s in seen for t, p, c in succ[s] if p}
    return seen, succ, {s: v for s, v in val.items() if s in seen or s in reached}


def expected_costs(rec, c):
    n, block, thin = c
    for k, trans in enumerate(unc_tables(n, block)):
        if k % thin:
            continue
        # one cost per transition: no duplicated next states with another cost
        for goals, terminal in (((n - 1,), (n - 1,)), ((n - 1,), (0, n - 1) if n == 2 else (1, n - 1)), ((1, n - 1), (1, n - 1))):
            if 0 in goals:
                continue
            live = [s for s in range(n) if s not in terminal]
            if any(not trans[s] for s in live):
                continue
            for pol in itertools.product(*[range(len(trans[s])) if s in live else (0,) for s in range(n)]):
                d = Unc(trans, goals, terminal)
                p = Table(lambda s: ACTS[pol[NAMES.index(s)]])
                seen, succ, val = solve(trans, goals, terminal, pol, 0)
                at = lambda: 'policy %r of %r, goals %r, terminal %r' % (pol, trans, goals, terminal)
                rec.state()
                rec.trans(len(seen))
                v, pd, preds, succs = PE.compute_expected_cost_for_policy(d, p)
                expect_eq({NAMES.index(s): ACTS.index(a) for s, a in pd.items()}, {s: pol[s] for s in seen}, lambda: at() + ': actions')
                got = {NAMES.index(s): x for s, x in v.items()}
                expect_eq(set(got), set(val), lambda: at() + ': states with a value')
                expect(all(abs(got[s] - val[s]) < 1e-9 for s in val), lambda: '%s: values %r, expected %r' % (at(), got, val))
                for s in seen:
                    q, w = {}, {}
                    for t, x in succs[NAMES[s]]:
                        q[NAMES.index(t)] = q.get(NAMES.index(t), 0) + x
                    for t, x, _ in succ[s]:
                        w[t] = w.get(t, 0) + x
                    expect_eq({t: x for t, x in q.items() if x}, {t: x for t, x in w.items() if x}, lambda: at() + ': successors of %d' % s)
                    for t in range(n):
                        expect_eq(NAMES[s] in preds.get(NAMES[t], ()), bool(w.get(t)), lambda: at() + ': predecessors of %d' % t)
                rec.trace()


# ------------------------------------------------------------------------------------------------ rollouts
def spec3(edges, durs, cap, needs, horizon=30, modes2=False):
    ids = tuple(range(1, len(durs) + 1))
    s = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1'], 'res': {'r1': cap},
         'modes': {t: {1: {'r1': n}} for t, n in zip(ids, needs)}, 'dur': {t: {1: d} for t, d in zip(ids, durs)}, 'horizon': horizon}
    if modes2:
        for t in ids:
            s['modes'][t][2] = {'r1': 0}
            s['dur'][t][2] = 1
    return s


def priority(order, mode=1, time_before=None):
    """start the first task of the order that can start, else let time pass; `dom` is asked what can start"""
    def mk(dom, ref):
        def fn(s):
            el = {(a.action.name, a.task, a.mode) for a in dom.get_applicable_actions(s).get_elements()}
            for t in order:
                if ('START', t, mode) in el and t in s.tasks_remaining and not (time_before and s.t < time_before.get(t, 0)):
                    return R.action('START', t, mode)
            return R.action('TIME_PR', None, None)
        return fn
    return mk


DUR = [[(1, 0.25), (2, 0.75)], [(2, 0.5), (3, 0.5)], 1, [(1, 0.2), (2, 0.3), (4, 0.5)]]


def split(asked):
    """the rollouts a policy was asked on: dates of the states, in order"""
    out = []
    for s, t in asked:
        if t == 0 and len(s.tasks_remaining) == 3 and not s.tasks_ongoing:
            out.append([])
        out[-1].append((s, t))
    return out


def rollouts(rec, c):
    edges, durs, order, nb = c
    dom = R.make('SingleModeRCPSP_Stochastic_Durations', spec3(edges, [DUR[d] for d in durs], 2, (1, 1, 2)))
    ref = R.Ref(dom.spec)
    fn = priority(order)(R.make('SingleModeRCPSP_Stochastic_Durations', dom.spec), ref)
    for fast in (False, True):
        at = lambda: '%s rollout estimation of %r' % ('fast' if fast else 'full', c)
        total = 0.
        for (k, out), _tr, prob in nondet.explore(lambda: run(dom, fn, nb, fast)):
            rec.trace()
            expect(k == 'ok', lambda: '%s raised %r' % (at(), out))
            (values, pol, preds, succs), asked = out
            runs = split(asked)
            expect_eq(len(runs), nb, lambda: at() + ': number of rollouts')
            total += prob
            ends = [r[-1][1] + 1 for r in runs]  # the last task ends while time passes
            if fast:
                expect_eq([round(v, 9) for v in values.values()], [round(sum(ends) / nb, 9)], lambda: '%s: value of the initial state with makespans %r' % (at(), ends))
                expect(all(s.t == 0 for s in values), lambda: at() + ': not the initial state')
                continue
            want = {}
            for r, e in zip(runs, ends):
                for s, t in r:
                    want.setdefault(s, []).append(e - t)
            expect_eq(set(values), set(want), lambda: at() + ': states')
            for s, w in want.items():
                rec.trans()
                expect(abs(values[s] - sum(w) / len(w)) < 1e-9, lambda: '%s: value %r of a state visited with costs to go %r' % (at(), values[s], w))
                expect(R.akey(pol[s]) == R.akey(fn(s)), lambda: at() + ': action')
            for r in runs:
                for (x, _), (y, _) in zip(r, r[1:]):
                    expect(y in succs[x] and x in preds[y], lambda: at() + ': a transition is missing')
            npairs = len({(x, y) for r in runs for (x, _), (y, _) in zip(r, r[1:])})
            expect_eq(sum(len(p) for p in preds.values()), npairs, lambda: at() + ': number of predecessors')
            rec.state()
        expect(abs(total - 1) < 1e-9, lambda: at() + ': total probability %r' % total)


def run(dom, fn, nb, fast):
    dom.set_inplace_environment(False)
    p = Table(fn)
    f = PE.rollout_based_compute_expected_cost_for_policy_scheduling if fast else PE.rollout_based_compute_expected_cost_for_policy
    if fast:
        p._get_next_action = lambda o: (p.asked.append((o.copy(), o.t)), fn(o))[1]
    return f(dom, p, nb_rollout=nb), p.asked


# ------------------------------------------------------------------------------------------------ pile policy
def desc(spec, t):
    return {x for x in spec['tasks'] if t in spec['anc'][x]}


def allowed(spec, ref, st, greedy):
    """{task or None: probability or None (any of them)}"""
    can = [t for k, t, m in ref.actions(st) if k == 'START' and m == 1]
    if not can:
        return {None: 1.}
    nb = {t: len(desc(spec, t)) for t in can}
    if greedy is GreedyChoice.MOST_SUCCESSORS:
        return {t: None for t in can if nb[t] == max(nb.values())}
    if greedy is GreedyChoice.FASTEST:
        d = {t: spec['dur'][t][1] for t in can}
        return {t: None for t in can if d[t] == min(d.values())}
    if greedy is GreedyChoice.TOTALLY_RANDOM or not sum(nb.values()):
        return {t: 1. / len(can) for t in can}
    return {t: nb[t] / sum(nb.values()) for t in can if nb[t]}


def idle(path):
    return any('needlessly' in a[0] for a in path)


def pile(rec, c):
    kind, edges, durs, cap, needs, greedy = c
    spec = spec3(edges, durs, cap, needs, modes2=kind.startswith('Multi'), horizon=20)
    dom = R.make(kind, spec)
    ref = R.Ref(dom.spec)
    pol = PilePolicy() if greedy is GreedyChoice.MOST_SUCCESSORS else PilePolicy(greedy_method=greedy)
    pol.solve(lambda: dom) if c[2][0] % 2 else pol.solve_from_scratch(lambda: dom) if hasattr(pol, 'solve_from_scratch') else pol.solve(lambda: dom)
    todo = [(ref.initial(), dom.get_initial_state(), ())]
    seen = {todo[0][0]}
    while todo:
        st, s, path = todo.pop()
        rec.state()
        at = lambda: 'pile policy %s on %s %r after %r' % (greedy.name, kind, c[1:5], path)
        expect(bool(pol.is_policy_defined_for(s)), lambda: at() + ': not defined')
        want = allowed(dom.spec, ref, st, greedy)
        before = repr(s)
        got = {}
        for (k, a), _tr, p in nondet.explore(lambda: pol.get_next_action(s)):
            rec.trace()
            expect(k == 'ok', lambda: '%s raised %r' % (at(), a))
            if a.action.name == 'TIME_PR':
                expect(a.time_progress and a.task is None, lambda: at() + ': %r' % (R.akey(a),))
                got[None] = got.get(None, 0) + p
            else:
                expect_eq(R.akey(a), ('START', a.task, 1, False, ()), at)
                got[a.task] = got.get(a.task, 0) + p
            expect(a.task is None or bool(dom.is_applicable_action(a, s)), lambda: at() + ": not an applicable action")
        expect(repr(s) == before, lambda: at() + ' modified the state')
        if None in want.values():
            expect(set(got) <= set(want), lambda: '%s: chose %r, expected one of %r' % (at(), set(got), set(want)))
        else:
            expect(set(got) == set(want) and all(abs(got[t] - want[t]) < 1e-9 for t in want), lambda: '%s: chose %r, expected %r' % (at(), got, want))
        # follow the policy, and (for breadth) every applicable action too
        acts = ref.actions(st)
        if ref.goal(st) or st[0] > 12:
            continue
        for a in acts:
            # time passes without need at most once
            if a[0] == 'TIME_PR' and None not in want and idle(path):
                continue
            nxt = ref.next(st, *a)
            (st2, _), = nxt.items()
            if st2 in seen:
                continue
            seen.add(st2)
            rec.trans()
            (s2, _), = dom.get_next_state_distribution(s, R.action(*a)).get_values()
            todo.append((st2, s2, path + ((a[0] + ' needlessly',) + a[1:] if a[0] == 'TIME_PR' and None not in want else a,)))


# ------------------------------------------------------------------------------------------------ meta policy
def makespan(ref, st, fn_abs):
    t0 = st[0]
    while not ref.goal(st):
        a = fn_abs(st)
        (st, _), = ref.next(st, *a).items()
    return st[0] - t0


def abs_priority(ref, order):
    def fn(st):
        acts = set(ref.actions(st))
        for t in order:
            if ('START', t, 1) in acts:
                return ('START', t, 1)
        return ('TIME_PR', None, None)
    return fn


def meta(rec, c):
    edges, durs, known, cap, needs, orders, nb, verbose = c
    kind = 'SingleModeRCPSP'
    dom, kn = R.make(kind, spec3(edges, durs, cap, needs)), R.make(kind, spec3(edges, known, cap, needs))
    ref, kref = R.Ref(dom.spec), R.Ref(kn.spec)
    oracle = R.make(kind, dom.spec)
    pols = {'p%d' % i: Table(priority(o)(oracle, ref)) for i, o in enumerate(orders)}
    m = MetaPolicy(pols, dom, kn, nb_rollout_estimation=nb, verbose=verbose)
    m.reset()
    todo = [(ref.initial(), dom.get_initial_state(), ())]
    seen = {todo[0][0]}
    while todo:
        st, s, path = todo.pop()
        if ref.goal(st):
            continue
        rec.state()
        at = lambda: 'meta policy of %r on %r known as %r after %r' % (orders, c[:2], known, path)
        fns = [abs_priority(ref, o) for o in orders]
        acts = [f(st) for f in fns]
        before = repr(s)
        a = m.get_next_action(s)
        got = (a.action.name, a.task, a.mode if a.action.name == 'START' else None)
        expect(repr(s) == before, lambda: at() + ' modified the state')
        if len(set(acts)) == 1:
            expect_eq(got, acts[0], lambda: at() + ': all agree')
        else:
            # a task running keeps the duration it was given; the ones to come have the known durations
            spans = [makespan(kref, st, f) for f in fns]
            want = {x for x, y in zip(acts, spans) if y == min(spans)}
            expect(got in want, lambda: '%s: chose %r, of %r with makespans %r' % (at(), got, acts, spans))
        for x in set(acts):
            (st2, _), = ref.next(st, *x).items()
            if st2 not in seen:
                seen.add(st2)
                rec.trans()
                (s2, _), = dom.get_next_state_distribution(s, R.action(*x)).get_values()
                todo.append((st2, s2, path + (x,)))


def meta_stochastic(rec, c):
    """the makespans of the rollouts are averaged: every outcome of the durations, in 2 rollouts of each policy"""
    edges, durs, orders, nb = c
    kind = 'SingleModeRCPSP_Stochastic_Durations'
    sp = spec3(edges, [DUR[d] for d in durs], 2, (1, 1, 2))
    dom, kn = R.make(kind, sp), R.make(kind, sp)
    ref = R.Ref(dom.spec)
    oracle = R.make(kind, sp)
    s = dom.get_initial_state()

    def go():
        pols = {'p%d' % i: Table(priority(o)(oracle, ref)) for i, o in enumerate(orders)}
        m = MetaPolicy(pols, dom, kn, nb_rollout_estimation=nb, verbose=False)
        return m.get_next_action(s), [p.asked for p in pols.values()]
    at = lambda: 'meta policy with uncertain durations, %r' % (c,)
    for (k, out), _tr, prob in nondet.explore(go, max_runs=4000):
        rec.trace()
        expect(k == 'ok', lambda: '%s raised %r' % (at(), out))
        a, asked = out
        sums, firsts = [], []
        for i, q in enumerate(asked):
            ends, last = [], None
            q = q[1:] if len(asked) > 1 else q
            for o, t in q:
                if last is not None and (t < last):
                    ends.append(last + 1)
                last = t
            if last is not None:
                ends.append(last + 1)
            firsts.append(abs_priority(ref, orders[i])(ref.initial()))
            if ends and len(ends) != nb:
                expect(False, lambda: '%s: %d rollouts seen' % (at(), len(ends)))
            sums.append(sum(ends))
        got = (a.action.name, a.task, a.mode if a.action.name == 'START' else None)
        want = {f for f, x in zip(firsts, sums) if x == min(sums)}
        expect(got in want, lambda: '%s: chose %r, with total makespans %r of %r' % (at(), got, sums, firsts))
    rec.state()


DAGS4 = [[(1, 2), (2, 3), (3, 4)], [(1, 2), (1, 3), (4, 2)], [(1, 3), (3, 4)], [(4, 1), (1, 2), (3, 2)], []]
DAGS4 += [[(1, 2), (2, 4), (3, 4)], [(2, 1), (1, 4), (3, 4)]]
DAGS4 = [tuple((i - 1, j - 1) for i, j in e) for e in DAGS4]  # indices, as in DAGS3


def build(ck):
    ck.rule = ('expected costs = fixpoint over the reachable part of the policy; rollout estimations = averages of the costs to go seen by the policy, for every outcome of the durations; '
               'pile policies = the announced choice among the tasks that can start, in every reachable state; meta policy = action of the policy with the smallest average makespan on the known domain')
    ck.scope = 'policies on all stochastic automata of 2 states and a part of those of 3; scheduling instances of 3 tasks; ties may be broken in any way'
    ck.run([(2, b, 1) for b in range(0, 64, 4)] + [(3, b, 7 if not THOROUGH else 1) for b in range(64)], expected_costs, 'expected costs', chunk=1, timeout=300)
    ck.run([(e, d, o, nb) for e in DAGS3[::2] for d in ((0, 1, 2), (3, 2, 0), (1, 0, 2)) for o in ((1, 2, 3), (3, 2, 1), (2, 3, 1)) for nb in (1, 2)],
           rollouts, 'rollouts', chunk=1, timeout=300)
    ck.run([(k, e, d, cap, n, g) for k in ('SingleModeRCPSP', 'MultiModeRCPSP') for e in DAGS3 for d in ((1, 2, 3), (3, 1, 2), (2, 2, 1))
            for cap, n in ((2, (1, 1, 2)), (2, (2, 1, 1)), (3, (1, 1, 1)), (1, (1, 1, 1))) for g in GreedyChoice
            if (k == 'SingleModeRCPSP' or cap == 2)] +
           # tasks whose successors and descendants differ in number, and running tasks beside several tasks to choose from
           [('SingleModeRCPSP', e, d, cap, n, g) for e in DAGS4 for d in ((2, 1, 2, 3), (1, 2, 1, 3), (2, 3, 2, 1), (2, 3, 1, 2)) for cap, n in ((2, (1, 1, 1, 1)), (3, (1, 2, 1, 1)), (4, (1, 1, 1, 1)))
            for g in GreedyChoice if not (g is GreedyChoice.TOTALLY_RANDOM and cap != 2)], pile, 'pile policies', chunk=4, timeout=300)
    perms = list(itertools.permutations((1, 2, 3)))
    ck.run([(e, d, kd, cap, n, (p, q), nb, False) for e in DAGS3 for d, kd in (((1, 2, 3), (1, 2, 3)), ((2, 1, 2), (3, 1, 1)), ((1, 3, 2), (2, 3, 4)))
            for cap, n in ((2, (1, 1, 2)), (3, (1, 2, 2)), (1, (1, 1, 1))) for p, q in itertools.combinations(perms, 2) for nb in (1, 2)
            if nb == 1 or (cap == 2)], meta, 'meta policy', chunk=8, timeout=300)
    ck.run([(e, d, o, nb) for e in DAGS3[:3] for d in ((1, 2, 0), (0, 1, 2), (2, 1, 0)) for o in (((1, 2, 3), (3, 2, 1)), ((3, 1, 2), (2, 1, 3))) for nb in (1, 2)],
           meta_stochastic, 'meta policy with uncertain durations', chunk=1, timeout=300)
    ck.sample({'edges': [[0, 1]], 'durations': [1, 2, 3], 'capacity': 2, 'needs': [1, 1, 2], 'greedy': 'FASTEST'})
