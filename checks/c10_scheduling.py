"""C10: executing a deterministic scheduling domain, in lockstep with the reference simulator, over all its reachable states."""
import itertools
from mc.core import expect, expect_eq, THOROUGH
from checks import schedref as R
from skdecide.builders.scheduling.scheduling_domains import SchedulingDomain

DAGS3 = [tuple(e for e, b in zip(((0, 1), (0, 2), (1, 2)), bits) if b) for bits in itertools.product((0, 1), repeat=3)]


def succ_of(ids, edges):
    s = {t: [] for t in ids}
    for a, b in edges:
        s[ids[a]].append(ids[b])
    return s


def explore(rec, kind, spec, label, limit=4000, pauses=1):
    dom = R.make(kind, spec)
    spec = dom.spec
    ref = R.Ref(spec)
    s0 = dom.get_initial_state()
    st0 = ref.initial()
    R.expect_state(ref, s0, st0, lambda: '%s: initial state' % label)
    expect(dom.get_initial_state() == s0, '%s: initial states differ' % label)
    seen = {st0: s0}
    by_impl = {s0: st0}
    todo = [(st0, s0, ())]
    n = 0
    while todo:
        st, s, path = todo.pop(0)
        n += 1
        rec.state()

        def where(extra=''):
            return '%s: after %s%s' % (label, list(path), extra)
        goal, term = ref.goal(st), ref.terminal(st)
        expect_eq(bool(dom.is_goal(s)), goal, lambda: where(': is_goal'))
        expect_eq(bool(dom.is_terminal(s)), term, lambda: where(': is_terminal'))
        expect_eq(bool(dom.all_tasks_possible(s)), ref.tasks_possible(st), lambda: where(': all_tasks_possible'))
        if term:
            rec.outcome((goal, st[0]))
            continue
        if n > limit:
            raise AssertionError('bound too low')
        rec.trace()
        before = repr(s)
        space = dom.get_applicable_actions(s)
        got = sorted(map(str, map(R.akey, space.get_elements())))
        acts = ref.actions(st)
        want = sorted(str((k, t, m, k == 'TIME_PR', ())) for k, t, m in acts)
        expect_eq(got, want, lambda: where(': applicable actions'))
        poss = {(t, m) for k, t, m in acts if k == 'START'}
        if not ref.overconsuming(st):
            g = dom.get_possible_starting_tasks(s)
            expect_eq({(t, m) for t in g for m in g[t]}, poss, lambda: where(': get_possible_starting_tasks'))
        # START and RESUME actions that the resources do not allow leave the state as it is
        refused = [('START', t, m) for t in ref.by(st, 'remaining') for m in spec['modes'][t] if (t, m) not in poss]
        refused = [a for a in refused if not ref.fits(st, a[1], a[2])]
        refused += [('RESUME', t, ref.rec(st, t)[1]) for t in ref.by(st, 'paused') if not ref.fits(st, t, ref.rec(st, t)[1])]
        for a in refused:
            nxt = dom.get_next_state(s, R.action(*a))
            R.expect_state(ref, nxt, st, lambda: where(', then %s which lacks resources' % (a,)))
            expect(not dom.is_applicable_action(R.action(*a), s), lambda: where(': %s is said applicable' % (a,)))
        for a in acts:
            rec.trans()
            (st2, _p), = ref.next(st, *a).items()
            act = R.action(*a)
            expect(bool(dom.is_applicable_action(act, s)), lambda: where(': %s is said not applicable' % (a,)))
            s2 = dom.get_next_state(s, act)
            R.expect_state(ref, s2, st2, lambda: where(', then %s' % (a,)))
            # the simulation used by solvers based on it
            o = SchedulingDomain._state_sample(dom, s, act)
            R.expect_state(ref, o.state, st2, lambda: where(', then %s by simulation' % (a,)))
            expect(bool(o.termination) == ref.terminal(st2), lambda: where(', then %s by simulation: termination %r' % (a, o.termination)))
            expect(abs(o.value.cost - ref.cost(st, a, st2)) < 1e-9, lambda: where(', then %s by simulation: cost %r' % (a, o.value.cost)))
            expect(repr(s) == before, lambda: where(': %s modified the state it was applied from' % (a,)))
            if a[0] == 'RESUME':
                s3 = dom.get_next_state(s, R.action('RESUME', a[1], None))
                R.expect_state(ref, s3, st2, lambda: where(', then %s without a mode' % (a,)))
            old = seen.get(st2)
            if old is None:
                clash = by_impl.get(s2)
                expect(clash is None, lambda: where(', then %s: equal to another state, %s' % (a, clash)))
                seen[st2] = s2
                by_impl[s2] = st2
                if sum(len(r[6]) for r in st2[2]) > pauses:
                    continue
                todo.append((st2, s2, path + (a,)))
            else:
                expect(s2 == old and hash(s2) == hash(old),
                       lambda: where(', then %s: not equal to the same state reached differently' % (a,)))
    # whole executions in place, every one from the same initial state
    dom.set_inplace_environment(True)
    for pick in (-1, 0, -1):
        s = dom.get_initial_state()
        st = st0
        R.expect_state(ref, s, st, lambda: '%s: initial state of an episode in place' % label)
        for k in range(60):
            acts = sorted(ref.actions(st), key=str)
            if ref.terminal(st) or k > 12 and pick == 0:
                break
            a = acts[pick]
            (st, _p), = ref.next(st, *a).items()
            s2 = dom.get_next_state(s, R.action(*a))
            expect(s2 is s, '%s: an in-place domain created another state' % label)
            R.expect_state(ref, s2, st, lambda: '%s: in place, step %d' % (label, k))
    dom.set_inplace_environment(False)
    R.expect_state(ref, dom.get_initial_state(), st0, lambda: '%s: initial state after episodes in place' % label)
    # copies are independent
    s = dom.get_initial_state().copy()
    c = s.copy()
    expect(c == s and c is not s, '%s: copy differs' % label)
    c.tasks_remaining.clear()
    c.tasks_complete.add(99)
    c.resource_used[spec['types'][0]] = 77
    c.tasks_details[spec['tasks'][0]].start = 5
    expect(s == dom.get_initial_state(), '%s: a copy of a state shares its content' % label)


# ------------------------------------------------------------------------------------------------------ families
def single(rec, case):
    ids, edges, durs, needs, cap = case
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1', 'r2'], 'res': {'r1': cap[0], 'r2': cap[1]},
            'modes': {t: {1: {'r1': n[0], 'r2': n[1]}} for t, n in zip(ids, needs)},
            'dur': {t: {1: d} for t, d in zip(ids, durs)}, 'horizon': 8 if THOROUGH else 5}
    explore(rec, 'SingleModeRCPSP', spec, 'SingleModeRCPSP %r' % (case,))


def single_cases():
    profiles = [((1, 0), (1, 0), (1, 1)), ((1, 1), (1, 0), (2, 1)), ((0, 1), (2, 0), (1, 1))]
    for edges in DAGS3:
        for durs in itertools.product((0, 1, 2, 3) if THOROUGH else (0, 1, 2), repeat=3):
            for i, p in enumerate(profiles):
                if not THOROUGH and i == sum(durs) % 3:
                    continue
                yield ((1, 2, 3) if (sum(durs) + i) % 2 else (7, 3, 5), edges, durs, p, (2, 1))


def calendar(rec, case):
    kind, durs, cal, edges = case
    ids = (1, 2, 3)
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1', 'r2'], 'res': {'r1': list(cal), 'r2': 2},
            'modes': {t: {1: {'r1': n, 'r2': 1}} for t, n in zip(ids, (1, 1, 2))},
            'dur': {t: {1: d} for t, d in zip(ids, durs)}, 'horizon': 5}
    if kind == 'MultiModeRCPSPCalendar':
        spec['modes'][1][2] = {'r1': 0, 'r2': 2}
        spec['dur'][1][2] = durs[0] + 1
    explore(rec, kind, spec, '%s %r' % (kind, case[1:]))


def calendar_cases():
    for kind in ('SingleModeRCPSPCalendar', 'MultiModeRCPSPCalendar'):
        for cal in itertools.product((0, 1, 2), repeat=3):
            for durs in ((1, 1, 1), (2, 1, 1), (2, 3, 1)):
                for edges in ((), ((0, 2),)):
                    yield (kind, durs, cal + (2,), edges)


def multimode(rec, case):
    kind, edges, nr_cap, need2, durs = case
    ids = (1, 2, 3)
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1', 'n1'], 'res': {'r1': 2, 'n1': nr_cap},
            'renew': {'r1': True, 'n1': False},
            'modes': {1: {1: {'r1': 1, 'n1': 1}, 2: {'r1': 2, 'n1': 0}}, 2: {1: {'r1': 1, 'n1': need2}, 3: {'r1': 1}},
                      3: {1: {'r1': 1, 'n1': 2}}},
            'dur': {1: {1: durs[0], 2: durs[0] + 1}, 2: {1: durs[1], 3: durs[1] + 1}, 3: {1: durs[2]}}, 'horizon': 5}
    explore(rec, kind, spec, '%s %r' % (kind, case[1:]))


def multimode_cases():
    for kind in ('MultiModeRCPSP', 'MultiModeRCPSPWithCost'):
        for edges in (DAGS3 if kind == 'MultiModeRCPSP' else DAGS3[3:5]):
            for nr_cap in (1, 2, 3, 4):
                for need2 in (1, 2):
                    for durs in ((1, 1, 1), (0, 1, 2)):
                        yield (kind, edges, nr_cap, need2, durs)


def preemptive(rec, case):
    pre, ret, durs, cal, shape, edges = case
    ids = (1, 2)
    if shape == 'constant':
        modes = {1: {1: {'r1': 1, 'n1': 1}, 2: {'r1': 2, 'n1': 0}}, 2: {1: {'r1': 1, 'n1': 1}}}
        dur = {1: {1: durs[0], 2: durs[0]}, 2: {1: durs[1]}}
    else:
        v = {2: [1, 2], 3: [2, 0, 1], 1: [1]}
        modes = {1: {1: {'r1': v[durs[0]], 'n1': [0] * durs[0]}}, 2: {1: {'r1': v[durs[1]][::-1]}}}
        if shape == 'kept':
            modes[1][1]['n1'] = [1] * durs[0]
            modes[2][1]['n1'] = [2] * durs[1]
        dur = {1: {1: durs[0]}, 2: {1: durs[1]}}
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1', 'n1'], 'res': {'r1': list(cal), 'n1': 3},
            'renew': {'r1': True, 'n1': shape == 'varying'}, 'modes': modes, 'dur': dur, 'horizon': 6 if THOROUGH else 4,
            'preempt': {1: pre[0], 2: pre[1]}, 'returned': {1: ret[0], 2: ret[1]}}
    explore(rec, 'PreemptiveRCPSP', spec, 'preemptive %r' % (case,), limit=20000, pauses=2 if THOROUGH or shape == 'varying' else 1)


def preemptive_cases():
    for shape in ('constant', 'varying', 'kept'):
        for pre in ((True, True), (True, False), (False, True)):
            for ret in (((True, False), (False, True)) if shape != 'varying' else ((True, True),)):
                for durs in (((1, 2), (2, 1), (2, 2), (3, 2)) if THOROUGH else ((1, 2), (2, 1), (3, 2))):
                    for cal in ((2, 2, 2), (2, 1, 2), (1, 2, 0, 2), (3, 0, 3)):
                        for edges in ((), ((0, 1),)):
                            if shape == 'kept' and (edges or not pre[0]) and not THOROUGH:
                                continue
                            yield (pre, ret, durs, cal, shape, edges)


def long_tasks(rec, case):
    """Tasks of long duration take exactly that long."""
    d, kind = case
    spec = {'tasks': [1, 2], 'succ': {1: [2], 2: []}, 'types': ['r1'], 'res': {'r1': 1}, 'modes': {t: {1: {'r1': 1}} for t in (1, 2)},
            'dur': {1: {1: d}, 2: {1: 1}}, 'horizon': d + 5, 'preempt': {1: True}}
    dom = R.make(kind, spec)
    s = dom.get_initial_state()
    s = dom.get_next_state(s, R.action('START', 1, 1))
    for k in range(d):
        rec.trans()
        expect(1 in s.tasks_ongoing, 'task of duration %d complete after %d time units' % (d, k))
        expect(not dom.get_possible_starting_tasks(s), 'successor of a running task may start')
        s = dom.get_next_state(s, R.action('TIME_PR', None, None))
    rec.state()
    expect(1 in s.tasks_complete and s.tasks_details[1].end == d, 'task of duration %d not complete after as much time' % d)
    expect_eq(s.resource_used, {'r1': 0}, 'resources after completion')


def combined(rec, case):
    """Actions that also let the time progress."""
    kind, edges, durs = case
    ids = (1, 2, 3)
    spec = R.full({'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1'], 'res': {'r1': 2}, 'modes': {t: {1: {'r1': 1}} for t in ids},
                   'dur': {t: {1: d} for t, d in zip(ids, durs)}, 'horizon': 6, 'preempt': {1: True}})
    dom = R.make(kind, spec)
    ref = R.Ref(dom.spec)
    todo = [(ref.initial(), dom.get_initial_state(), ())]
    seen = set()
    while todo:
        st, s, path = todo.pop()
        for a in ref.actions(st):
            rec.trans()
            (st2, _), = ref.next(st, *a, time=True).items()
            s2 = dom.get_next_state(s, R.action(*a, time=True))
            R.expect_state(ref, s2, st2, lambda: '%s %r: after %s, %s and time passes' % (kind, case, path, a))
            if st2 not in seen and not ref.terminal(st2):
                seen.add(st2)
                rec.state()
                todo.append((st2, s2, path + (a,)))


def build(ck):
    ck.rule = ('every reachable state of every bounded instance is visited by breadth-first search on the real domain class; in each, the '
               'applicable actions and the result of each of them (and of refused ones) are compared with the reference simulator, and '
               'states are equal exactly when their reference states are')
    ck.scope = ('SingleModeRCPSP (all 8 DAGs over 3 tasks x durations 0..2 x 3 need profiles), calendars (27 profiles), multi-mode with '
                'non-renewable resources, preemptive tasks with constant and varying consumption, actions combined with time, long durations; '
                'horizons of 4 to 6 dates (500 for the long durations)')
    ck.run(single_cases(), single, 'single mode')
    ck.run(calendar_cases(), calendar, 'calendars')
    ck.run(multimode_cases(), multimode, 'multi-mode, non-renewable')
    ck.run(preemptive_cases(), preemptive, 'preemptive', timeout=120)
    ck.run([(d, k) for d in (1, 2, 3, 7, 12, 30, 49, 101, 500) for k in ('SingleModeRCPSP', 'PreemptiveRCPSP')], long_tasks, 'long durations')
    ck.run([(k, e, d) for k in ('SingleModeRCPSP', 'PreemptiveRCPSP') for e in DAGS3 for d in itertools.product((0, 1, 2), repeat=3)],
           combined, 'actions with time')
    ck.sample({'kind': 'SingleModeRCPSP', 'case': repr(next(iter(single_cases())))})
