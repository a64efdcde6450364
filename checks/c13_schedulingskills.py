"""C13: allocation of resource units with skills to tasks."""
import itertools
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from checks import schedref as R
from checks.c10_scheduling import succ_of
from skdecide.builders.scheduling.scheduling_domains import SchedulingActionSpaceWithResourceUnit


def free_units(ref, st):
    u, a = ref.used(st), ref.avail(st)
    return [x for x in ref.s['units'] if u[x] + 1 <= a[x]]


def doable(ref, st, t, m):
    """Sets of free units with which the task can be done in this mode."""
    out = []
    free = free_units(ref, st)
    for n in range(len(free) + 1):
        for c in itertools.combinations(free, n):
            if ref.fits(st, t, m, c):
                out.append(frozenset(c))
    return out


def explore(rec, kind, spec, label):
    dom = R.make(kind, spec)
    spec = dom.spec
    ref = R.Ref(spec)
    s0, st0 = dom.get_initial_state(), ref.initial()
    R.expect_state(ref, s0, st0, lambda: label + ': initial state')
    expect_eq(set(dom.get_skills_names()), {k for d in spec['rskills'].values() for k in d} |
              {k for d in spec['tskills'].values() for m in d.values() for k in m}, label + ': skill names')
    seen = {st0: s0}
    todo = [(st0, s0, ())]
    while todo:
        st, s, path = todo.pop(0)
        rec.state()

        def where(extra=''):
            return '%s: after %s%s' % (label, list(path), extra)
        expect_eq(bool(dom.is_goal(s)), ref.goal(st), lambda: where(': is_goal'))
        expect_eq(bool(dom.is_terminal(s)), ref.terminal(st), lambda: where(': is_terminal'))
        if ref.terminal(st):
            continue
        over = ref.overconsuming(st)
        base = ref.actions(st)        # as far as resource types are concerned
        want = {(k, t, m): doable(ref, st, t, m) for k, t, m in base if k in ('START', 'RESUME')}
        pausable = {t for k, t, m in base if k == 'PAUSE'}
        space = dom.get_applicable_actions(s)
        before = repr(s)
        drawn = {}
        for (k, a), _tr, p in nondet.explore(space.sample):
            rec.trans()
            expect(k == 'ok', lambda: where(': sampling an action raised %r' % (a,)))
            drawn.setdefault(R.akey(a), a)
        acts = []
        for key, a in sorted(drawn.items(), key=lambda x: str(x[0])):
            k, t, m, time, units = key
            if k == 'TIME_PR':
                expect(time and t is None and not units, lambda: where(': sampled %r' % (key,)))
                expect(not (over and pausable), lambda: where(': time progresses though a task could be paused to free overused resources'))
            elif k == 'PAUSE':
                expect(t in pausable and not time, lambda: where(': sampled %r' % (key,)))
            else:
                expect((k, t, m) in want and not time, lambda: where(': sampled %r which is not applicable' % (key,)))
                expect(frozenset(units) in want[(k, t, m)], lambda: where(': sampled %r, whose units are not free or not able' % (key,)))
                sk = {x for x, v in spec['tskills'][t][m].items() if v > 0}
                for u in units:
                    expect(any(spec['rskills'].get(u, {}).get(x, 0) > 0 for x in sk), lambda: where(': sampled %r, %s is useless' % (key, u)))
            acts.append((k, t, m, units))
        for (k, t, m), sets in want.items():
            if sets:
                expect(any(x[:3] == (k, t, m) for x in acts), lambda: where(': %s of task %s in mode %s can never be sampled' % (k, t, m)))
        for t in pausable:
            expect(any(x[:2] == ('PAUSE', t) for x in acts), lambda: where(': pausing %s can never be sampled' % t))
        if not (over and pausable):
            expect(any(x[0] == 'TIME_PR' for x in acts), lambda: where(': no time progress can be sampled'))
        # the enumerable space considers one unit per task
        one = set()
        for (k, t, m) in want:
            sk = {x: v for x, v in spec['tskills'][t][m].items() if v > 0}
            if not sk:
                one.add((k, t, m, False, ()))
            for u in spec['units']:
                if sk and all(spec['rskills'].get(u, {}).get(x, 0) >= v for x, v in sk.items()) and u in free_units(ref, st):
                    one.add((k, t, m, False, (u,)))
        one |= {('PAUSE', t, None, False, ()) for t in pausable} | {('TIME_PR', None, None, True, ())}
        got = [R.akey(a) for a in SchedulingActionSpaceWithResourceUnit(dom, s).get_elements()]
        expect_eq(sorted(map(str, got)), sorted(map(str, one)), lambda: where(': actions with one resource unit'))
        # refused allocations leave the state as it is
        free = free_units(ref, st)
        for (k, t, m), sets in want.items():
            for n in range(len(spec['units']) + 1):
                for c in itertools.combinations(spec['units'], n):
                    ok = frozenset(c) in sets
                    nxt = dom.get_next_state(s, R.action(k, t, m, c))
                    (st2, _), = ref.next(st, k, t, m, c).items()
                    rec.trans()
                    expect(ok == (st2 != st), 'reference model')
                    R.expect_state(ref, nxt, st2, lambda: where(', then %s of %s in mode %s with %s (%s)' % (
                        k, t, m, c, 'possible' if ok else 'impossible')))
                    use = {r: R.need(spec, t, m, r, 0) for r in spec['types']}
                    use.update({u: 1 for u in c})
                    expect_eq(bool(dom.check_if_skills_are_fulfilled(t, m, use)), ref.skills_ok(t, m, use),
                              lambda: where(': check_if_skills_are_fulfilled(%s, %s, %s)' % (t, m, use)))
        for a in acts:
            rec.trace()
            (st2, _), = ref.next(st, *a).items()
            s2 = dom.get_next_state(s, drawn[[k for k in drawn if k[:3] == a[:3] and k[4] == a[3]][0]])
            R.expect_state(ref, s2, st2, lambda: where(', then %s' % (a,)))
            expect(repr(s) == before, lambda: where(', then %s modified the state it was applied from' % (a,)))
            if st2 not in seen:
                seen[st2] = s2
                if sum(len(r[6]) for r in st2[2]) <= 1:
                    todo.append((st2, s2, path + (a,)))
    for t in spec['tasks']:
        for m in spec['modes'][t]:
            sk = {x: v for x, v in spec['tskills'][t][m].items() if v > 0}
            expect_eq(dict(dom.get_skills_of_task(t, m)), sk, '%s: skills of task %s' % (label, t))
            able = [r for r in spec['units'] if all(spec['rskills'].get(r, {}).get(x, 0) >= v for x, v in sk.items())]
            expect_eq(list(dom.find_one_ressource_to_do_one_task(t, m)), able if sk else [None], '%s: resources able to do %s' % (label, t))


RSK = [
    {'u1': {'S': 1}, 'u2': {'T': 1}, 'u3': {'S': 1, 'T': 1}, 'r1': {}},
    {'u1': {'S': 2}, 'u2': {'S': 1, 'T': 1}, 'u3': {'T': 0}, 'r1': {}},
    {'u1': {'S': 1}, 'u2': {'S': 1}, 'u3': {}, 'r1': {'T': 1}},
]
TSK = [
    {1: {1: {'S': 1}}, 2: {1: {'S': 1, 'T': 1}, 2: {'T': 1}}},
    {1: {1: {'S': 2}}, 2: {1: {'T': 1, 'S': 0}, 2: {}}},
    {1: {1: {'S': 3}}, 2: {1: {'S': 1, 'T': 2}, 2: {'S': 1}}},
]


def skills(rec, case):
    kind, rsk, tsk, durs, edges, unit, cal = case
    ids = (1, 2)
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1'], 'units': ['u1', 'u2', 'u3'],
            'res': {'r1': 2, 'u1': 1, 'u2': 1, 'u3': 1}, 'modes': {1: {1: {'r1': 1}}, 2: {1: {'r1': 0}, 2: {'r1': 2}}},
            'dur': {1: {1: durs[0]}, 2: {1: durs[1], 2: durs[1] + 1}}, 'horizon': 3, 'rskills': RSK[rsk], 'tskills': TSK[tsk],
            'preempt': {1: kind == 'PreemptiveSkillRCPSP', 2: False}}
    if kind != 'MultiModeMultiSkillRCPSP' and cal:
        spec['res'][unit] = list(cal)
    explore(rec, kind, spec, '%s %r' % (kind, case[1:]))


def uncertain(rec, case):
    """Uncertain or simulated durations and conditional tasks on resource units: every outcome of every allocation."""
    kind, rsk, tsk, durs, edges, cal, conds = case
    ids = (1, 2, 3)
    spec = {'tasks': ids, 'succ': succ_of(ids, edges), 'types': ['r1', 'n1'], 'units': ['u1', 'u2', 'u3'],
            'res': {'r1': 3, 'n1': 3, 'u1': 1, 'u2': 1, 'u3': 1}, 'renew': {'n1': False},
            'modes': {1: {1: {'r1': 1, 'n1': 1}}, 2: {1: {'r1': 1}}, 3: {1: {'n1': 1}}},
            'dur': {t: {1: DURS[d]} for t, d in zip(ids, durs)}, 'horizon': 3, 'rskills': dict(RSK[rsk], n1={}),
            'tskills': {1: TSK[tsk][1], 2: {1: TSK[tsk][2][1]}, 3: {1: {'S': 1}}}, 'preempt': {1: (bool(cal) and not conds) or THOROUGH},
            'objectives': ['MAKESPAN', 'COST'], 'mode_costs': {1: {1: 2.}, 2: {1: 0.}, 3: {1: 3.}},
            'unit_costs': {'r1': 1., 'n1': 1., 'u1': 5., 'u2': 7., 'u3': 11.}}
    if conds:
        spec['conds'] = {1: [[('A', 0.25), ('ok', 0.75)]], 2: [[('A', 0.5), ('ok', 0.5)]]}
        spec['exist'] = {3: ['A']}
    spec['res'].update(cal)
    label = '%s %r' % (kind, case[1:])
    if kind == 'SimulatedSkillRCPSP':
        for (k, dom), _tr, _p in nondet.explore(lambda: R.make(kind, spec)):
            expect(k == 'ok', lambda: '%s: building the domain raised %r' % (label, dom))
            fixed = dict(dom.spec, dur={t: {1: dom.sample_task_duration(t, 1)} for t in ids})
            outcomes(rec, dom, R.Ref(fixed), '%s, durations %r' % (label, fixed['dur']), False)
    else:
        dom = R.make(kind, spec)
        outcomes(rec, dom, R.Ref(dom.spec), label, True)


def outcomes(rec, dom, ref, label, distribution):
    s0, st0 = dom.get_initial_state(), ref.initial()
    R.expect_state(ref, s0, st0, lambda: label + ': initial state')
    seen = {st0}
    todo = [(st0, s0, ())]
    while todo:
        st, s, path = todo.pop(0)
        rec.state()
        if ref.terminal(st):
            continue
        where = lambda: '%s: after %s' % (label, list(path))
        acts = []
        for k, t, m in ref.actions(st):
            if k in ('START', 'RESUME'):
                sets = doable(ref, st, t, m)
                sets = [c for c in sets if not any(d < c for d in sets)] + ([] if len(path) else sets)
                bad = [frozenset(c) for n in range(3) for c in itertools.combinations(ref.s['units'], n) if frozenset(c) not in doable(ref, st, t, m)]
                acts += [(k, t, m, tuple(sorted(c))) for c in dict.fromkeys((sets if THOROUGH or not path else sets[-2:]) + bad[:1 + (not path)])]
            else:
                acts.append((k, t, m, ()))
        before = repr(s)
        for a in acts:
            rec.trans()
            want = ref.next(st, *a)
            w = lambda: where() + ', then %s' % (a,)
            act = R.action(*a)
            if distribution:
                vals = dom.get_next_state_distribution(s, act).get_values()
                nexts = R.match_dist(ref, vals, want, w)
                for st2, s2 in nexts.items():
                    expect(abs(dom.get_transition_value(s, act, s2).cost - ref.cost(st, a, st2)) < 1e-9, lambda: w() + ': cost')
            else:
                nexts, got = {}, {}
                for (k, o), _tr, p in nondet.explore(lambda: dom.sample(s, act)):
                    expect(k == 'ok', lambda: '%s raised %r' % (w(), o))
                    for st2 in want:
                        if R.matches(ref, o.observation, st2) is None:
                            break
                    else:
                        expect(False, lambda: '%s: impossible outcome (%s)' % (w(), R.matches(ref, o.observation, next(iter(want)))))
                    nexts.setdefault(st2, o.observation)
                    got[st2] = got.get(st2, 0.) + p
                    expect(abs(o.value.cost - ref.cost(st, a, st2)) < 1e-9, lambda: w() + ': cost')
                    expect(bool(o.termination) == ref.terminal(st2), lambda: w() + ': termination')
                for st2, p in want.items():
                    expect(abs(got.get(st2, 0.) - p) < 1e-9, lambda: '%s: outcome of probability %r, expected %r' % (w(), got.get(st2, 0.), p))
            expect(repr(s) == before, lambda: w() + ' modified the state it was applied from')
            for st2, s2 in nexts.items():
                if st2 not in seen:
                    seen.add(st2)
                    if sum(len(r[6]) for r in st2[2]) <= 1:
                        todo.append((st2, s2, path + (a,)))


DURS = [1, [(1, 0.25), (2, 0.75)], [(0, 0.5), (1, 0.5)]]


def uncertain_cases():
    for kind in ('StochasticSkillRCPSP', 'SimulatedSkillRCPSP'):
        for rsk in (0, 2):
            for tsk in (0, 2):
                for i, durs in enumerate(((0, 0, 0), (1, 2, 0), (2, 1, 0))):
                    for edges in ((), ((0, 2),)):
                        for cal in ({}, {'u1': [1, 0, 1]}):
                            for conds in (False, True):
                                if (not THOROUGH and (i + (rsk + tsk) // 2 + len(edges) + len(cal) + conds) % 2 or (kind[1] == 'i' and (rsk + i) % 2)):
                                    continue
                                yield (kind, rsk, tsk, durs, edges, cal, conds)


def cases():
    for kind in ('MultiModeMultiSkillRCPSP', 'MultiModeMultiSkillRCPSPCalendar', 'PreemptiveSkillRCPSP'):
        for rsk in range(3):
            for tsk in range(3):
                for durs in (((1, 1), (2, 1), (0, 2)) if not THOROUGH else itertools.product((0, 1, 2, 3), repeat=2)):
                    for edges in ((), ((0, 1),)):
                        for unit, cal in ((('u1', None),) if kind == 'MultiModeMultiSkillRCPSP' else (('u1', (1, 0, 1)), ('u3', (0, 1, 0)))):
                            yield (kind, rsk, tsk, durs, edges, unit, cal)


def build(ck):
    ck.rule = ('every reachable state: every action its (sampled) action space can return over all random outcomes, the enumerable one-unit '
               'action space, and the result of starting/resuming every task in every mode with every subset of the units, against the reference simulator')
    ck.scope = '3 multi-skill families x 3 unit skill tables x 3 task skill tables x durations x precedence x unit calendars; 2 tasks, 3 units, horizon 3'
    ck.run(cases(), skills, 'skills', timeout=200, chunk=1)
    ck.run(uncertain_cases(), uncertain, 'uncertain durations', timeout=200, chunk=1)
    ck.sample({'units': repr(RSK[0]), 'tasks': repr(TSK[0])})
