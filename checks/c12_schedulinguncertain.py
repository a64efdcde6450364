"""C12: executing scheduling domains with uncertain durations and conditional tasks: every outcome, with its exact probability."""
import itertools
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from checks import schedref as R
from skdecide.builders.scheduling.scheduling_domains import SchedulingDomain
from checks.c10_scheduling import succ_of, DAGS3


def check_actions(dom, ref, s, st, where):
    got = sorted(map(str, map(R.akey, dom.get_applicable_actions(s).get_elements())))
    acts = ref.actions(st)
    expect_eq(got, sorted(str((k, t, m, k == 'TIME_PR', ())) for k, t, m in acts), lambda: where() + ': applicable actions')
    expect_eq(bool(dom.is_goal(s)), ref.goal(st), lambda: where() + ': is_goal')
    if hasattr(dom, 'is_terminal'):
        expect_eq(bool(dom.is_terminal(s)), ref.terminal(st), lambda: where() + ': is_terminal')
    return acts


def sampled(dom, s, act, how):
    return dom.sample(s, act) if how == 'domain' else SchedulingDomain._state_sample(dom, s, act)


def explore(rec, kind, spec, label, sample=False, pauses=1, combined=False):
    dom = R.make(kind, spec)
    ref = R.Ref(dom.spec)
    s0, st0 = dom.get_initial_state(), ref.initial()
    R.expect_state(ref, s0, st0, lambda: label + ': initial state')
    seen = {st0: s0}
    todo = [(st0, s0, ())]
    while todo:
        st, s, path = todo.pop(0)
        rec.state()

        def where(extra=''):
            return '%s: after %s%s' % (label, list(path), extra)
        acts = check_actions(dom, ref, s, st, where)
        if ref.terminal(st):
            continue
        before = repr(s)
        for a, time in [(a, None) for a in acts] + ([(a, True) for a in acts if a[0] == 'START'] if combined else []):
            rec.trans()
            want = ref.next(st, *a, time=time)
            act = R.action(*a, time=time)
            w = lambda: where(', then %s%s' % (a, ' and time' if time else ''))
            vals = dom.get_next_state_distribution(s, act).get_values()
            nexts = R.match_dist(ref, vals, want, w)
            expect(repr(s) == before, lambda: w() + ' modified the state it was applied from')
            expect(len({id(x) for x, _ in vals}) == len(vals), lambda: w() + ': outcomes share a state')
            for x, _ in vals:
                for y, _ in vals:
                    if x is not y:
                        shared = [t for t in x.resource_used_for_task if t in y.resource_used_for_task and
                                  x.resource_used_for_task[t] is y.resource_used_for_task[t]]
                        expect(not shared and x.resource_used is not y.resource_used, lambda: w() + ': outcomes share their content')
            for how in (('domain', 'simulation') if sample else ()):
                got = {}
                for (k, o), _tr, p in nondet.explore(lambda: sampled(dom, s, act, how)):
                    rec.trace()
                    expect(k == 'ok', lambda: '%s: sampling raised %r' % (w(), o))
                    for st2 in want:
                        if R.matches(ref, getattr(o, 'observation', None) or o.state, st2) is None:
                            break
                    else:
                        expect(False, lambda: w() + ': sampled an impossible outcome')
                    got[st2] = got.get(st2, 0.) + p
                    expect(bool(o.termination) == ref.terminal(st2), lambda: w() + ': sampled termination %r' % o.termination)
                    expect(abs(o.value.cost - ref.cost(st, a, st2)) < 1e-9, lambda: w() + ': sampled cost %r' % o.value.cost)
                for st2, p in want.items():
                    expect(abs(got.get(st2, 0.) - p) < 1e-9,
                           lambda: '%s: an outcome is sampled with probability %r, expected %r' % (w(), got.get(st2, 0.), p))
                expect(repr(s) == before, lambda: w() + ': sampling modified the state it was applied from')
            if time:
                continue
            for st2, s2 in nexts.items():
                if st2 not in seen:
                    seen[st2] = s2
                    if sum(len(r[6]) for r in st2[2]) <= pauses:
                        todo.append((st2, s2, path + ((a, ref.ids and st2[0]),)))
                else:
                    expect(s2 == seen[st2] and hash(s2) == hash(seen[st2]), lambda: w() + ': not equal to the same state reached differently')


DURS = [[(1, 1.)], [(1, 0.25), (2, 0.75)], [(0, 0.5), (1, 0.5)], [(1, 0.2), (2, 0.3), (3, 0.5)]]


def durations(rec, case):
    kind, edges, durs, sample = case
    ids = (1, 2, 3)
    multi = kind.startswith('MultiMode')
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1', 'r2'],
            'res': {'r1': [2, 1, 2] if 'Calendar' in kind else 2, 'r2': 2}, 'renew': {'r2': 'Calendar' not in kind},
            'modes': {t: {1: {'r1': n, 'r2': k}} for t, n, k in zip(ids, (1, 1, 2), (1, 0, 1))},
            'dur': {t: {1: DURS[d]} for t, d in zip(ids, durs)}, 'horizon': 4}
    if multi:
        spec['modes'][1][2] = {'r1': 0, 'r2': 1}
        spec['dur'][1][2] = DURS[(durs[0] + 1) % 4]
    explore(rec, kind, spec, '%s %r' % (kind, case[1:]), sample=sample, combined=sample)


def duration_cases():
    for kind in ('SingleModeRCPSP_Stochastic_Durations', 'MultiModeRCPSP_Stochastic_Durations', 'MultiModeRCPSPCalendar_Stochastic_Durations'):
        for i, edges in enumerate(DAGS3):
            for durs in (((0, 1, 2), (3, 1, 0), (2, 2, 1)) if not THOROUGH else itertools.product(range(4), repeat=3)):
                if not THOROUGH and kind.startswith('MultiMode') and i in (1, 4, 6):
                    continue
                yield (kind, edges, durs, i in (2, 5))


CONDS = [
    {1: [[('A', 0.25), ('ok', 0.75)]]},
    {1: [[('A', 0.25), ('ok', 0.75)], [('B', 0.5), ('ok', 0.5)]]},
    {1: [[('A', 0.25), ('ok', 0.75)]], 2: [[('B', 0.5), ('A', 0.25), ('ok', 0.25)]]},
    {1: [[('A', 0.5), ('B', 0.5)]], 2: [[('A', 0.1), ('ok', 0.9)]]},
    {1: [[('A', 1.)]]},
]
EXIST = [{3: ['A']}, {3: ['A', 'B']}, {3: ['A'], 4: ['B']}]
EDGES4 = [(), ((0, 2), (2, 3)), ((0, 2), (1, 2), (2, 3)), ((0, 3), (1, 3), (2, 3))]


def conditional(rec, case):
    kind, conds, exist, edges, durs, sample = case
    ids = (1, 2, 3, 4)
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1'], 'res': {'r1': 2},
            'modes': {t: {1: {'r1': n}} for t, n in zip(ids, (1, 1, 2, 1))},
            'dur': {t: {1: DURS[d]} for t, d in zip(ids, durs)}, 'horizon': 4, 'conds': conds, 'exist': exist}
    if kind == 'PreemptiveStochasticRCPSP':
        spec['preempt'] = {1: True, 3: True}
        spec['res'] = {'r1': [2, 1, 2]}
        spec['horizon'] = 3
    explore(rec, kind, spec, '%s %r' % (kind, case[1:]), sample=sample, pauses=0 if not THOROUGH else 1, combined=sample)


def conditional_cases():
    k = 0
    for conds in CONDS:
        for exist in EXIST:
            for edges in EDGES4:
                for durs in ((0, 0, 0, 0), (1, 0, 0, 0), (2, 0, 1, 0)):
                    k += 1
                    yield ('SingleModeRCPSP_Stochastic_Durations_WithConditionalTasks', conds, exist, edges, durs, k % 7 == 0)
                    if (durs[0] == 1 or THOROUGH) and k % 2:
                        yield ('PreemptiveStochasticRCPSP', conds, exist, edges, durs, False)


def varying(rec, case):
    """Uncertain durations with a consumption that varies along the task."""
    durs, cal, edges, preempt = case
    ids = (1, 2)
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1'], 'res': {'r1': list(cal)},
            'modes': {1: {1: {'r1': [1, 2, 1, 1]}}, 2: {1: {'r1': [2, 0, 1, 1]}, 2: {'r1': [1, 1, 1, 1]}}},
            'dur': {1: {1: DURS[durs[0]]}, 2: {1: DURS[durs[1]], 2: DURS[3]}}, 'horizon': 4, 'preempt': {1: preempt}}
    explore(rec, 'PreemptiveStochasticRCPSP', spec, 'varying %r' % (case,), sample=preempt and not edges)


def simulated(rec, case):
    """Simulated durations: drawn once, kept, and used for every execution; conditions drawn at each execution."""
    conds, exist, edges, durs = case
    ids = (1, 2, 3, 4)
    kind = 'SingleModeRCPSP_Simulated_Stochastic_Durations_WithConditionalTasks'
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1'], 'res': {'r1': 2},
            'modes': {t: {1: {'r1': n}} for t, n in zip(ids, (1, 1, 2, 1))},
            'dur': {t: {1: DURS[d]} for t, d in zip(ids, durs)}, 'horizon': 4, 'conds': conds, 'exist': exist}
    label = 'simulated %r' % (case,)
    for (k, dom), _tr, _p in nondet.explore(lambda: R.make(kind, spec)):
        expect(k == 'ok', lambda: '%s: building the domain raised %r' % (label, dom))
        drawn = {t: {1: dom.sample_task_duration(t, 1)} for t in ids}
        for t in ids:
            expect(drawn[t][1] in [x for x, p in DURS[durs[ids.index(t)]]], lambda: '%s: impossible duration %r' % (label, drawn))
        fixed = dict(dom.spec, dur=drawn)
        ref = R.Ref(fixed)
        todo = [(ref.initial(), dom.get_initial_state(), ())]
        seen = {ref.initial()}
        while todo:
            st, s, path = todo.pop(0)
            rec.state()
            where = lambda: '%s, durations %r: after %s' % (label, drawn, list(path))
            acts = check_actions(dom, ref, s, st, where)
            if ref.terminal(st):
                continue
            before = repr(s)
            for a in acts:
                want = ref.next(st, *a)
                got = {}
                for (k, o), _tr2, p in nondet.explore(lambda: dom.sample(s, R.action(*a))):
                    rec.trans()
                    expect(k == 'ok', lambda: '%s, then %s raised %r' % (where(), a, o))
                    for st2 in want:
                        if R.matches(ref, o.observation, st2) is None:
                            break
                    else:
                        expect(False, lambda: '%s, then %s: impossible outcome (%s)' % (
                            where(), a, R.matches(ref, o.observation, next(iter(want)))))
                    got[st2] = got.get(st2, 0.) + p
                    expect(abs(o.value.cost - ref.cost(st, a, st2)) < 1e-9, lambda: '%s, then %s: cost %r' % (where(), a, o.value.cost))
                    expect(bool(o.termination) == ref.terminal(st2), lambda: '%s, then %s: termination' % (where(), a))
                    if st2 not in seen:
                        seen.add(st2)
                        todo.append((st2, o.observation, path + (a,)))
                expect(repr(s) == before, lambda: '%s, then %s modified the state' % (where(), a))
                for st2, p in want.items():
                    expect(abs(got.get(st2, 0.) - p) < 1e-9, lambda: '%s, then %s: outcome of probability %r, expected %r' % (
                        where(), a, got.get(st2, 0.), p))


def build(ck):
    ck.rule = ('every reachable state x applicable action: the next-state distribution (and the sampled one, all random outcomes enumerated) '
               'equals that of the reference simulator, state by state and with the exact probabilities')
    ck.scope = ('3 stochastic families (all 8 DAGs over 3 tasks), conditional tasks (5 condition models x 3 existence rules x 4 graphs x 3 '
                'duration profiles over 4 tasks), varying consumption, simulated durations; horizon 3-4')
    ck.run(duration_cases(), durations, 'uncertain durations', timeout=200, chunk=1)
    ck.run(conditional_cases(), conditional, 'conditional tasks', timeout=200, chunk=1)
    ck.run([(d, c, e, p) for d in ((1, 2), (3, 1), (2, 3)) for c in ((3, 3, 2), (2, 2, 2), (4, 1, 3)) for e in ((), ((0, 1),)) for p in (False, True)],
           varying, 'varying consumption', timeout=200, chunk=1)
    ck.run([(c, e, g, d) for c in CONDS[:3] for e in EXIST[1:] for g in EDGES4[:2] for d in ((1, 0, 0, 0), (2, 1, 0, 0))],
           simulated, 'simulated durations', timeout=200, chunk=1)
    ck.sample({'conditions': repr(CONDS[1]), 'existence': repr(EXIST[1])})
