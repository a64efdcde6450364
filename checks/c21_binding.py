"""C21: RCPSP models and scheduling domains are converted into each other faithfully."""
import itertools
from copy import deepcopy
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from checks import rcpspref as P
from checks import schedref as R
from checks.c20_rcpsp import build_model, extended
from skdecide import DiscreteDistribution
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as M
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel, MS_RCPSPModel_Variant, Employee, SkillDetail
from skdecide.builders.scheduling.modes import ConstantModeConsumption
from skdecide.hub.domain.rcpsp import rcpsp_sk as D
from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain, build_sk_domain, from_last_state_to_solution


def spec_of(inst, H, constant=False):
    res = {r: q if isinstance(q, int) else max(q) if constant else list(q) for r, q in inst['res'].items()}
    return R.full({'tasks': inst['tasks'], 'succ': inst['succ'], 'modes': {t: {m: {r: d[r] for r in inst['res']} for m, d in ms.items()} for t, ms in inst['modes'].items()},
                   'dur': {t: {m: d['duration'] for m, d in ms.items()} for t, ms in inst['modes'].items()}, 'res': res, 'types': list(inst['res']),
                   'renew': {r: r not in inst['nr'] for r in inst['res']}, 'horizon': H})


def content(m, H=None):
    cut = lambda q: q if isinstance(q, int) else [int(x) for x in q][:H]
    return {'resources': {r: cut(q) for r, q in m.resources.items()}, 'non renewable': set(m.non_renewable_resources),
            'modes': {t: {k: {x: v for x, v in d.items() if v} for k, d in ms.items()} for t, ms in m.mode_details.items()},
            'successors': {t: sorted(s) for t, s in m.successors.items()}, 'horizon': m.horizon, 'n': m.n_jobs}


def want_content(inst, H, cal):
    res = {r: (q if isinstance(q, int) else list(q)) if not cal else ([q] * H if isinstance(q, int) else [R.qty({'res': inst['res']}, r, t) for t in range(H)])
           for r, q in inst['res'].items()}
    return {'resources': res, 'non renewable': set(inst['nr']), 'modes': {t: {k: {x: v for x, v in d.items() if v} for k, d in ms.items()} for t, ms in inst['modes'].items()},
            'successors': {t: sorted(s) for t, s in inst['succ'].items()}, 'horizon': H, 'n': len(inst['tasks']) - 2}


def declared(dom, spec, at, max_t):
    expect_eq(sorted(dom.get_tasks_ids()), sorted(spec['tasks']), lambda: at() + ': tasks')
    expect_eq({t: sorted(s) for t, s in dom.get_successors().items()}, {t: sorted(s) for t, s in spec['succ'].items()}, lambda: at() + ': successors')
    expect_eq({t: {m: {r: c.get_resource_need_at_time(r, 0) for r in spec['types']} for m, c in ms.items()} for t, ms in dom.get_tasks_modes().items()},
              {t: {m: {r: d.get(r, 0) for r in spec['types']} for m, d in ms.items()} for t, ms in spec['modes'].items()}, lambda: at() + ': consumption of the modes')
    expect_eq(sorted(dom.get_resource_types_names()), sorted(spec['types']), lambda: at() + ': resource types')
    expect_eq({r: bool(v) for r, v in dom.get_resource_renewability().items()}, spec['renew'], lambda: at() + ': renewability')
    expect_eq(dom.get_max_horizon(), spec['horizon'], lambda: at() + ': horizon')
    expect_eq({(r, t): int(dom.get_quantity_resource(r, time=t)) for r in spec['res'] for t in range(max_t)}, {(r, t): R.qty(spec, r, t) for r in spec['res'] for t in range(max_t)},
              lambda: at() + ': quantities of resources')
    expect_eq([o.name for o in dom.get_objectives()], ['MAKESPAN'], lambda: at() + ': objectives')


# ------------------------------------------------------------------------------------------------ executing the domain built from a model
def execute(rec, c):
    edges, durs, needs, res, nr, more, H, varying = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H)
    before = deepcopy(content(model))
    cal = isinstance(model, M.RCPSPModelCalendar)
    dom = build_sk_domain(model, varying) if varying else build_sk_domain(model)
    at = lambda: 'domain of %r' % (c,)
    spec = spec_of(inst, H, constant=not varying)
    declared(dom, spec, at, H)
    if len({len(m) for m in inst['modes'].values()}) == 1:
        expect_eq({t: m.get_resource_need_at_time(r, 0) for t, m in (dom.get_tasks_mode() if isinstance(dom, D.SingleMode) else {}).items() for r in list(inst['res'])[:1]},
                  {t: inst['modes'][t][1][list(inst['res'])[0]] for t in inst['tasks']} if isinstance(dom, D.SingleMode) else {}, lambda: at() + ': single modes')
    # and back
    back = build_do_domain(dom)
    flat = {'res': {r: spec['res'][r] for r in spec['types']}, 'nr': inst['nr'], 'modes': inst['modes'], 'succ': inst['succ'], 'tasks': inst['tasks']}
    expect_eq(content(back, H), want_content(flat, H, cal and varying), lambda: at() + ': converted back')
    expect_eq(isinstance(back, M.RCPSPModelCalendar), bool(cal and varying), lambda: at() + ': type of the model converted back (%s)' % type(back).__name__)
    # the schedules that can be executed are the feasible ones
    ref = R.Ref(spec)
    s0, st0 = dom.get_initial_state(), ref.initial()
    todo, seen, schedules = [(st0, s0, ())], {st0}, {}
    while todo:
        st, s, path = todo.pop()
        rec.state()
        R.expect_state(ref, s, st, lambda: '%s after %r' % (at(), path))
        expect_eq(bool(dom.is_goal(s)), ref.goal(st), lambda: '%s after %r: is_goal' % (at(), path))
        expect_eq(bool(dom.is_terminal(s)), ref.terminal(st), lambda: '%s after %r: is_terminal' % (at(), path))
        if ref.goal(st):
            sol = from_last_state_to_solution(s, dom)
            starts = {t: r[4] for t, r in zip(ref.ids, st[2])}
            modes = {t: r[1] for t, r in zip(ref.ids, st[2])}
            dur = {t: inst['modes'][t][modes[t]]['duration'] for t in inst['tasks']}
            at2 = lambda: 'solution read after %r in the %s' % (path, at())
            expect_eq({t: (v['start_time'], v['end_time']) for t, v in sol.rcpsp_schedule.items()}, {t: (x, x + dur[t]) for t, x in starts.items()}, lambda: at2() + ': schedule')
            expect_eq(list(sol.rcpsp_modes), [modes[t] for t in inst['tasks'][1:-1]], lambda: at2() + ': modes')
            expect_eq(content(sol.problem, H), content(back, H), lambda: at2() + ': problem')
            dropped = any(d and any(P.usage(inst, modes, starts, r, x) > R.qty(spec, r, x) for r in inst['res'] if r not in nr for x in range(starts[t], starts[t] + d)) for t, d in dur.items())
            if not dropped:
                expect(bool(sol.problem.satisfy(sol)), lambda: at2() + ' does not satisfy the model of the domain')
            if not dropped and not (cal and not varying):
                sol.problem = model
                expect(bool(model.satisfy(sol)), lambda: at2() + ' does not satisfy the model')
            expect_eq(model.evaluate(sol)['makespan'] if not cal else sol.rcpsp_schedule[max(starts)]['end_time'], max(x + dur[t] for t, x in starts.items()), lambda: at2() + ': makespan')
            if not dropped:
                schedules[tuple(sorted(starts.items())), tuple(sorted(modes.items()))] = path
            rec.trace()
            continue
        if ref.terminal(st):
            continue
        acts = ref.actions(st)
        expect_eq(sorted((a.action.name, a.task or 0, a.mode or 0) for a in dom.get_applicable_actions(s).get_elements()), sorted((k, t or 0, m or 0) for k, t, m in acts),
                  lambda: '%s after %r: applicable actions' % (at(), path))
        for a in acts:
            (st2, _), = ref.next(st, *a).items()
            # whatever begins at the last date is left out
            if st2 in seen or (a[0] == 'TIME_PR' and st2[0] > H):
                continue
            rec.trans()
            seen.add(st2)
            todo.append((st2, dom.get_next_state(s, R.action(*a)), path + (a,)))
    feas = {}
    inst2 = dict(inst, res={r: spec['res'][r] if not isinstance(spec['res'][r], list) else spec['res'][r] + [spec['res'][r][-1]] * (2 * H) for r in inst['res']})
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]]):
        ext = extended(inst, ms)
        if any(P.total(inst2, ext, r) > P.avail(inst2, r, 0) for r in nr):
            continue
        dur = {t: inst['modes'][t][ext[t]]['duration'] for t in inst['tasks']}
        def grow(i, starts):
            if i == len(inst['tasks']):
                # (a task which takes no time still needs its resources to be free when it is started)
                if P.feasible(inst2, ext, starts) and all(dur[t] or not any(inst['modes'][t][ext[t]][r] + P.usage(inst2, ext, starts, r, starts[t]) > R.qty(spec, r, starts[t])
                                                                                  for r in inst['res'] if r not in nr and inst['modes'][t][ext[t]][r]) for t in dur):
                    feas[tuple(sorted(starts.items())), tuple(sorted(ext.items()))] = 1
                return
            k = inst['tasks'][i]
            lo = max([0] + [starts[p] + dur[p] for p in inst['tasks'] if k in inst['succ'][p] and p in starts])
            for x in range(lo, H - dur[k] + 1):
                starts[k] = x
                grow(i + 1, starts)
                del starts[k]
        grow(0, {})
    got = {k for k in schedules if all(x + inst['modes'][t][dict(k[1])[t]]['duration'] <= H for t, x in k[0])}
    # (with calendars, a running task may also see its resources disappear: such executions are not schedules of the model)
    expect_eq({k for k in got if not P.feasible(inst2, dict(k[1]), dict(k[0]))}, set(), lambda: at() + ': schedules executed but not feasible')
    expect_eq(set(feas) - got, set(), lambda: at() + ': feasible schedules which cannot be executed')
    rec.outcome(len(feas))
    expect_eq(content(model), before, lambda: at() + ': the model was modified')


# ------------------------------------------------------------------------------------------------ models of any scheduling domain
def from_domain(rec, c):
    kind, edges, durs, cap, renew, extra = c
    ids = (1, 2, 3, 4)
    succ = {1: [2, 3], 2: [4], 3: [4], 4: []}
    for a, b in edges:
        succ[a].append(b)
    cal = 'Calendar' in kind
    H = 6
    spec = {'tasks': list(ids), 'succ': succ, 'types': ['R', 'S'], 'res': {'R': cap if cal else 3, 'S': 2}, 'horizon': H,
            'modes': {1: {1: {'R': 0, 'S': 0}}, 2: {1: {'R': 2, 'S': 0}}, 3: {1: {'R': 1, 'S': 1}}, 4: {1: {'R': 0, 'S': 0}}},
            'dur': {1: {1: 0}, 2: {1: durs[0]}, 3: {1: durs[1]}, 4: {1: 0}}}
    multi = kind.startswith('Multi')
    if multi:
        spec['renew'] = {'R': True, 'S': renew}
        spec['modes'][2][2] = {'R': 1, 'S': 1}
        spec['dur'][2][2] = durs[2]
    if extra:
        # resources which a mode does not name are not needed
        spec['modes'][1] = {1: {}}
        spec['modes'][4] = {1: {}}
        spec['modes'][2][1] = {'R': 2}
    dom = R.make(kind, spec)
    at = lambda: 'model of %s %r' % (kind, c[1:])
    m = build_do_domain(dom)
    rec.state()
    inst = {'tasks': list(ids), 'succ': succ, 'res': spec['res'], 'nr': [r for r in ('R', 'S') if not dom.spec['renew'][r]],
            'modes': {t: {k: dict({'R': 0, 'S': 0}, duration=spec['dur'][t][k], **d) for k, d in ms.items()} for t, ms in spec['modes'].items()}}
    expect_eq(content(m, H), want_content(inst, H, cal), at)
    expect_eq(isinstance(m, M.RCPSPModelCalendar), cal, lambda: at() + ' is a %s' % type(m).__name__)
    if not cal:
        expect_eq(type(m), M.MultiModeRCPSPModel if multi else M.SingleModeRCPSPModel, lambda: at() + ': type')
    for modes in itertools.product((1, 2) if multi else (1,), (1,)):
        ext = dict(zip(ids, (1,) + modes + (1,)))
        for perm in ((0, 1), (1, 0)):
            rec.trans()
            want = P.sgs(dict(inst, res={r: q if isinstance(q, int) else q + [q[-1]] * 12 for r, q in inst['res'].items()}), [1] + [p + 2 for p in perm] + [4], ext, H)
            sol = M.RCPSPSolution(problem=m, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
            if want is None or any(P.total(inst, ext, r) > R.qty(spec, r, 0) for r in inst['nr']):
                expect(not m.satisfy(sol), lambda: '%s: order %r in modes %r satisfies' % (at(), perm, modes))
            else:
                expect_eq({t: v['start_time'] for t, v in sol.rcpsp_schedule.items()}, want, lambda: '%s: order %r in modes %r' % (at(), perm, modes))


def sampled(rec, c):
    """domains with uncertain durations: one outcome of every duration, with its probability"""
    kind, law = c
    LAWS = [[(1, .5), (2, .5)], [(0, .25), (3, .75)], 2]
    spec = {'tasks': [1, 2, 3, 4], 'succ': {1: [2, 3], 2: [4], 3: [4], 4: []}, 'types': ['R'], 'res': {'R': 3}, 'horizon': 6,
            'modes': {1: {1: {'R': 0}}, 2: {1: {'R': 2}}, 3: {1: {'R': 1}}, 4: {1: {'R': 0}}},
            'dur': {1: {1: 0}, 2: {1: LAWS[law[0]]}, 3: {1: LAWS[law[1]]}, 4: {1: 0}}}
    want = {}
    for a, p in ([(2, 1.)] if law[0] == 2 else LAWS[law[0]]):
        for b, q in ([(2, 1.)] if law[1] == 2 else LAWS[law[1]]):
            want[a, b] = want.get((a, b), 0) + p * q
    dom = R.make(kind, spec)
    got = {}
    rec.state()
    for (k, m), _tr, p in nondet.explore(lambda: build_do_domain(dom)):
        rec.trace()
        expect(k == 'ok', lambda: 'model of %s %r raised %r' % (kind, law, m))
        d = m.mode_details
        inst = {'tasks': spec['tasks'], 'succ': spec['succ'], 'res': spec['res'], 'nr': [],
                'modes': {t: {1: {'R': spec['modes'][t][1]['R'], 'duration': {2: d[2][1]['duration'], 3: d[3][1]['duration']}.get(t, 0)}} for t in spec['tasks']}}
        expect_eq(content(m), want_content(inst, 6, False), lambda: 'model of %s %r' % (kind, law))
        key = (d[2][1]['duration'], d[3][1]['duration'])
        got[key] = got.get(key, 0) + p
    expect(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-9 for k in want), lambda: 'durations in the models of %s: %r, expected %r' % (kind, got, want))


# ------------------------------------------------------------------------------------------------ uncertain from deterministic, and conversely
def stochastic(rec, c):
    edges, durs, noisy, nr, more, H = c
    inst = P.instance(edges, durs, [{'R': 1, 'S': 1}, {'R': 2, 'S': 0}, {'R': 1, 'S': 1}][:len(durs)], {'R': 2, 'S': 3}, nr, more)
    dom = build_sk_domain(build_model(inst, H))
    sto = D.build_stochastic_from_deterministic(dom, None if noisy is None else set(noisy))
    at = lambda: 'stochastic domain of %r' % (c,)
    spec = dict(spec_of(inst, H), horizon=2 * H)
    rec.state()
    declared(sto, spec, at, 2 * H)
    for t in inst['tasks']:
        for m in inst['modes'][t]:
            d = inst['modes'][t][m]['duration']
            want = {}
            if d == 0 or (noisy is not None and t not in noisy):
                want = {d: 1.}
            else:
                for i in range(-10, 11):
                    want[max(1, d + i)] = want.get(max(1, d + i), 0) + 1 / 21
            got = {}
            for v, p in sto.get_task_duration_distribution(t, m).get_values():
                got[v] = got.get(v, 0) + p
            rec.trans()
            expect(set(got) == set(want) and all(abs(got[v] - want[v]) < 1e-9 for v in want), lambda: '%s: duration of task %d in mode %d: %r, expected %r' % (at(), t, m, got, want))


LAW = {0: [(1, .5), (2, .5)], 1: [(1, .25), (3, .75)], 2: [(2, 1.)], 3: [(0, 1.)]}


def uncertain_domain(c):
    edges, laws, law2, nr, H = c
    inst = P.instance(edges, (9,) * len(laws), [{'R': 1, 'S': 1}, {'R': 2, 'S': 0}, {'R': 1, 'S': 1}][:len(laws)], {'R': 2, 'S': 3}, nr,
                      {0: {2: (9, {'R': 2, 'S': 2})}} if law2 is not None else None)
    dist = {t: {m: LAW[3] for m in inst['modes'][t]} for t in inst['tasks']}
    for i, l in enumerate(laws):
        dist[i + 2][1] = LAW[l]
    if law2 is not None:
        dist[2][2] = LAW[law2]
    dom = D.Stochastic_RCPSP(resource_names=['R', 'S'], task_ids=list(inst['tasks']),
                             tasks_mode={t: {m: ConstantModeConsumption({r: d[r] for r in ('R', 'S')}) for m, d in ms.items()} for t, ms in inst['modes'].items()},
                             duration_distribution={t: {m: DiscreteDistribution(list(l)) for m, l in ms.items()} for t, ms in dist.items()},
                             successors=inst['succ'], max_horizon=H, resource_availability={'R': 2, 'S': 3}, resource_renewable={r: r not in nr for r in ('R', 'S')})
    spec = spec_of(inst, H)
    spec['dur'] = {t: {m: list(l) for m, l in ms.items()} for t, ms in dist.items()}
    return inst, dist, dom, spec


def determinised(rec, c):
    inst, dist, dom, spec = uncertain_domain(c[:-1])
    nb = c[-1]
    declared(dom, spec, lambda: 'stochastic domain %r' % (c,), c[4])
    keys = [(t, m) for t in inst['tasks'] for m in inst['modes'][t]]
    at = lambda: '%d deterministic instances of %r' % (nb, c)
    got = {}
    rec.state()
    for (k, l), _tr, p in nondet.explore(lambda: D.build_n_determinist_from_stochastic(dom, nb)):
        rec.trace()
        expect(k == 'ok' and len(l) == nb, lambda: '%s: %r' % (at(), l))
        outs = []
        for d in l:
            ds = tuple(d.get_task_duration(t, m) for t, m in keys)
            outs.append(ds)
            sp = dict(spec, dur={t: {m: ds[keys.index((t, m))] for m in inst['modes'][t]} for t in inst['tasks']})
            declared(d, sp, at, c[4])
            rec.trans()
            i2 = dict(inst, modes={t: {m: dict(x, duration=ds[keys.index((t, m))]) for m, x in ms.items()} for t, ms in inst['modes'].items()})
            expect_eq(content(build_do_domain(d)), want_content(i2, c[4], False), lambda: at() + ': model of an instance')
        got[tuple(outs)] = got.get(tuple(outs), 0) + p
    one = {(): 1.}
    for t, m in keys:
        one = {o + (v,): p * q for o, p in one.items() for v, q in dist[t][m]}
    want = {(): 1.}
    for _ in range(nb):
        want = {o + (v,): p * q for o, p in want.items() for v, q in one.items()}
    expect(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-9 for k in want), lambda: '%s: durations %r, expected %r' % (at(), got, want))


def uncertain_execution(rec, c):
    """the hub's domains with uncertain durations, executed"""
    which, inner = c
    inst, dist, dom, spec = uncertain_domain(inner)
    if which == 'calendar':
        cal = {'R': [2, 1, 2, 2, 0, 2, 2, 2][:inner[4] + 2], 'S': [3] * (inner[4] + 2)}
        dom = D.SMRCPSPCalendar(resource_names=['R', 'S'], task_ids=list(inst['tasks']), tasks_mode={t: {m: dict(d) for m, d in ms.items()} for t, ms in inst['modes'].items()},
                                successors=inst['succ'], duration_distribution={t: {m: DiscreteDistribution(list(l)) for m, l in ms.items()} for t, ms in dist.items()},
                                max_horizon=inner[4], resource_availability=cal, resource_renewable={r: r not in inner[3] for r in ('R', 'S')})
        spec = dict(spec, res=cal)
    at = lambda: '%s domain %r' % (which, inner)
    declared(dom, spec, at, inner[4])
    ref = R.Ref(spec)
    todo, seen = [(ref.initial(), dom.get_initial_state(), ())], {ref.initial()}
    while todo:
        st, s, path = todo.pop()
        rec.state()
        expect_eq((bool(dom.is_goal(s)), bool(dom.is_terminal(s))), (ref.goal(st), ref.terminal(st)), lambda: '%s after %r: goal and terminal' % (at(), path))
        if ref.terminal(st):
            continue
        acts = ref.actions(st)
        expect_eq(sorted((a.action.name, a.task or 0, a.mode or 0) for a in dom.get_applicable_actions(s).get_elements()), sorted((k, t or 0, m or 0) for k, t, m in acts),
                  lambda: '%s after %r: applicable actions' % (at(), path))
        for a in acts:
            want = ref.next(st, *a)
            rec.trans()
            got = R.match_dist(ref, dom.get_next_state_distribution(s, R.action(*a)).get_values(), want, lambda: '%s after %r then %r' % (at(), path, a))
            for st2, s2 in got.items():
                if st2 not in seen:
                    seen.add(st2)
                    todo.append((st2, s2, path + (a,)))


# ------------------------------------------------------------------------------------------------ skills
def skills(rec, c):
    """models with employees: the domain declares the same employees, skills, calendars and needs; and back"""
    variant, caps, cals, needs, varying, nr, H = c
    tasks = [1, 2, 3, 4]
    succ = {1: [2, 3], 2: [3], 3: [4], 4: []}
    md = {1: {1: {'duration': 0, 'R': 0, 'N': 0, 'a': 0, 'b': 0}}, 2: {1: dict({'duration': 2, 'R': 1, 'N': 1}, **needs[0])},
          3: {1: dict({'duration': 1, 'R': 2, 'N': 0}, **needs[1]), 2: dict({'duration': 3, 'R': 0, 'N': 1}, **needs[2])}, 4: {1: {'duration': 0, 'R': 0, 'N': 0, 'a': 0, 'b': 0}}}
    # employees: names and skill levels
    employees = {i: Employee(dict_skill={s: SkillDetail(v, 1., 1.) for s, v in sk.items()}, calendar_employee=[bool(x) for x in cal]) for i, (sk, cal) in enumerate(zip(caps, cals))}
    R_cal = [2, 1] + [2] * (H - 1)
    model = (MS_RCPSPModel_Variant if variant else MS_RCPSPModel)(
        skills_set={'a', 'b'}, resources_set={'R', 'N'}, non_renewable_resources=set(nr), resources_availability={'R': R_cal, 'N': [3] * (H + 1)},
        employees=employees, employees_availability=[sum(x) for x in zip(*cals)], mode_details=deepcopy(md), successors=deepcopy(succ), horizon=H, horizon_multiplier=1)
    dom = build_sk_domain(model, varying)
    at = lambda: 'domain of the multi-skill model %r' % (c,)
    rec.state()
    names = [str(i) for i in employees]
    expect_eq(sorted(dom.get_resource_units_names()), sorted(names), lambda: at() + ': units')
    expect_eq(set(dom.get_skills_names()), {'a', 'b'}, lambda: at() + ': skills')
    spec = {'tasks': tasks, 'succ': succ, 'types': ['R', 'N'], 'modes': {t: {m: {r: d[r] for r in ('R', 'N')} for m, d in ms.items()} for t, ms in md.items()}, 'horizon': H,
            'renew': dict({'R': 'R' not in nr, 'N': 'N' not in nr}, **{n: True for n in names}),
            'res': dict({'R': R_cal if varying else 2, 'N': 3}, **{n: [int(x) for x in cals[i]] if varying else 1 for i, n in enumerate(names)})}
    declared(dom, spec, at, H + 1)
    for i, n in enumerate(names):
        got = {k: v for k, v in dom.get_skills_of_resource(resource=n).items() if v}
        expect_eq(got, {k: v for k, v in caps[i].items() if v}, lambda: at() + ': skills of unit %s' % n)
    for t in tasks:
        for m in md[t]:
            expect_eq({k: v for k, v in dom.get_skills_of_task(task=t, mode=m).items() if v}, {k: md[t][m][k] for k in 'ab' if md[t][m].get(k)}, lambda: at() + ': skills needed by %d in mode %d' % (t, m))
            expect_eq(dom.get_task_duration(task=t, mode=m), md[t][m]['duration'], lambda: at() + ': duration')
    back = build_do_domain(dom)
    rec.trans()
    at2 = lambda: 'model back from the %s' % at()
    expect_eq(type(back), MS_RCPSPModel_Variant, at2)
    expect_eq((set(back.skills_set), set(back.resources_set), set(back.non_renewable_resources)), ({'a', 'b'}, {'R', 'N'}, set(nr)), lambda: at2() + ': skills and resources')
    expect_eq({r: [int(x) for x in q][:H] for r, q in back.resources_availability.items()}, {r: [R.qty(spec, r, t) for t in range(H)] for r in ('R', 'N')}, lambda: at2() + ': availability')
    expect_eq({t: {m: {k: v for k, v in d.items() if v} for m, d in ms.items()} for t, ms in back.mode_details.items()},
              {t: {m: {k: v for k, v in d.items() if v} for m, d in ms.items()} for t, ms in md.items()}, lambda: at2() + ': modes')
    expect_eq({t: sorted(s) for t, s in back.successors.items()}, succ, lambda: at2() + ': successors')
    expect_eq((back.horizon, back.sink_task, back.source_task), (H, 4, 1), lambda: at2() + ': horizon and ends')
    expect(not back.one_unit_per_task_max, lambda: at2() + ': one unit per task, which the domain does not say')
    expect_eq(len(back.employees), len(names), lambda: at2() + ': employees')
    for e, n in zip(sorted(back.employees), sorted(names)):
        i = names.index(n)
        expect_eq({k: d.skill_value for k, d in back.employees[e].dict_skill.items() if d.skill_value}, {k: v for k, v in caps[i].items() if v}, lambda: at2() + ': skills of employee %s' % n)
        expect_eq([bool(x) for x in back.employees[e].calendar_employee][:H], [bool(R.qty(spec, n, t)) for t in range(H)], lambda: at2() + ': calendar of employee %s' % n)
    expect_eq([int(x) for x in back.employees_availability][:H], [sum(R.qty(spec, n, t) for n in names) for t in range(H)], lambda: at2() + ': employees available')


def shuffled(rec, c):
    """domains whose tasks and units are listed in another order than their names: employee i is the i-th unit in the order of the names"""
    order, names, varying, H, sk = c
    levels = ({'a': 1, 'b': 0}, {'a': 0, 'b': 2}, {'a': 2, 'b': 1})
    cals = ([1, 0, 1, 1, 1, 1], [0, 1, 1, 1, 1, 1], [1, 1, 0, 1, 1, 0])
    md = {1: {1: {'duration': 0, 'R': 0, 'a': 0, 'b': 0}}, 2: {1: {'duration': 2, 'R': 1, 'a': 1, 'b': 1}}, 3: {1: {'duration': 1, 'R': 2, 'a': 0, 'b': 1}}, 4: {1: {'duration': 0, 'R': 0, 'a': 0, 'b': 0}}}
    levels = [{k: v for k, v in x.items() if k in sk} for x in levels]
    md = {t: {m: {k: v for k, v in d.items() if k not in 'ab' or k in sk} for m, d in ms.items()} for t, ms in md.items()}
    Rq = [2, 1, 2, 2, 2, 1]
    kw = dict(skills_names=[x for x in ('b', 'a') if x in sk], resource_unit_names=list(names), resource_type_names=['R'], resource_skills=dict({'R': {}}, **{n: dict(levels[int(n[1])]) for n in names}),
              task_ids=list(order), tasks_mode=deepcopy({t: md[t] for t in order}), successors={t: {1: [3, 2], 2: [4], 3: [4], 4: []}[t] for t in order}, max_horizon=H,
              resource_renewable=dict({'R': True}, **{n: True for n in names}))
    if varying:
        dom = D.MSRCPSPCalendar(resource_availability=dict({'R': list(Rq)}, **{n: list(cals[int(n[1])]) for n in names}), **kw)
    else:
        dom = D.MSRCPSP(resource_availability=dict({'R': 2}, **{n: 1 for n in names}), **kw)
    rec.state()
    m = build_do_domain(dom)
    rec.trans()
    at = lambda: 'model of the multi-skill domain with tasks %r and units %r (%s)' % (order, names, 'calendars' if varying else 'constant')
    expect_eq({e: ({k: d.skill_value for k, d in x.dict_skill.items() if d.skill_value}, [bool(v) for v in x.calendar_employee][:H]) for e, x in m.employees.items()},
              {i: ({k: v for k, v in levels[int(n[1])].items() if v}, [bool(cals[int(n[1])][t]) if varying else True for t in range(H)]) for i, n in enumerate(sorted(names))}, lambda: at() + ': employees')
    expect_eq((m.source_task, m.sink_task, m.horizon, {t: sorted(s) for t, s in m.successors.items()}), (1, 4, H, {1: [2, 3], 2: [4], 3: [4], 4: []}), lambda: at() + ': tasks')
    expect_eq([int(x) for x in m.resources_availability['R']][:H], Rq[:H] if varying else [2] * H, lambda: at() + ': quantities')
    expect_eq([int(x) for x in m.employees_availability][:H], [sum(cals[int(n[1])][t] if varying else 1 for n in names) for t in range(H)], lambda: at() + ': employees available')
    expect_eq({t: {k: {x: v for x, v in d.items() if v} for k, d in ms.items()} for t, ms in m.mode_details.items()}, {t: {k: {x: v for x, v in d.items() if v} for k, d in ms.items()} for t, ms in md.items()},
              lambda: at() + ': modes')
    expect(not m.one_unit_per_task_max, lambda: at() + ': one unit per task, which the domain does not say')
    # single-skill types of domains, with tasks in any order
    spec = {'tasks': list(order), 'succ': {t: {1: [3, 2], 2: [4], 3: [4], 4: []}[t] for t in order}, 'types': ['S', 'R'], 'res': {'R': 2, 'S': 1}, 'horizon': H,
            'modes': {t: {1: {'R': md[t][1]['R'], 'S': md[t][1]['b']}} for t in order}, 'dur': {t: {1: md[t][1]['duration']} for t in order}}
    for kind in ('SingleModeRCPSP', 'MultiModeRCPSP'):
        m = build_do_domain(R.make(kind, spec))
        rec.trans()
        inst = {'tasks': list(order), 'succ': spec['succ'], 'res': spec['res'], 'nr': [], 'modes': {t: {1: dict(spec['modes'][t][1], duration=md[t][1]['duration'])} for t in order}}
        expect_eq(content(m), want_content(inst, H, False), lambda: 'model of the %s with tasks %r' % (kind, order))
        for perm in ((0, 1), (1, 0)):
            want = P.sgs(dict(inst, tasks=[1, 2, 3, 4]), [1] + [p + 2 for p in perm] + [4], {1: 1, 2: 1, 3: 1, 4: 1}, H)
            sol = M.RCPSPSolution(problem=m, rcpsp_permutation=list(perm), rcpsp_modes=[1, 1])
            expect_eq({t: v['start_time'] for t, v in sol.rcpsp_schedule.items()}, want, lambda: 'model of the %s with tasks %r: order %r' % (kind, order, perm))


def parsed(rec, which):
    """the domains of the instances which come with the library"""
    from skdecide.hub.domain.rcpsp import rcpsp_sk_parser as sp
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_parser as rp
    names = {f.split('/')[-1] for f in rp.get_data_available()}
    for name in sorted(names)[:which]:
        path = [f for f in rp.get_data_available() if f.endswith('/' + name)][0]
        m = rp.parse_file(path)
        dom = sp.load_domain(name)
        rec.state()
        back = build_do_domain(dom)
        expect_eq(content(back), content(m), 'domain of ' + name)
        rec.trans()


def build(ck):
    ck.rule = ('the domain built from a model is explored from its initial state (all reachable states, in lockstep with the reference simulator): the schedules it can execute are exactly the feasible schedules of the model, '
               'and the solution read from each final state is that schedule; models built from domains have the same content and decode alike; uncertain versions have exactly the stated distributions, over all outcomes')
    ck.scope = '1-2 tasks (3 with tight horizons) between source and sink, durations 0-3, 1-2 resources, 1-2 modes, non-renewable resources, calendars; 2-3 employees with 2 skills; 1-2 determinised instances'
    D1 = [(1, 2), (2, 0), (1, 1)]
    ND = [[{'R': 1}, {'R': 2}], [{'R': 2}, {'R': 1}], [{'R': 1}, {'R': 1}]]
    cases = [(e, d, n, {'R': 2}, (), None, 4, False) for e in ((), ((0, 1),)) for d in D1 for n in ND]
    cases += [((), d, n, {'R': 1}, (), None, 5, False) for d in ((2, 1), (1, 3)) for n in ND[2:]]
    cases += [(e, d, [{'R': 1, 'S': 1}, {'R': 1, 'S': 2}], {'R': 2, 'S': q}, nr, mm, 4, False) for e in ((), ((0, 1),)) for d in D1[:2] for nr, q in ((('S',), 3), (('S',), 2), ((), 2))
              for mm in (None, {0: {2: (3, {'R': 0, 'S': 0})}}, {1: {2: (1, {'R': 2, 'S': 1})}})]
    CAL = [[2, 1, 2, 0, 2, 2, 2, 2], [1, 2, 2, 1, 2, 2, 2, 2], [0, 2, 1, 2, 2, 2, 2, 2]]
    cases += [(e, d, n, {'R': cal}, (), None, 4, v) for e in ((), ((0, 1),)) for d in D1[:2] for n in ND[:2] for cal in CAL for v in (True, False) if v or cal is CAL[0] or e]
    cases += [((), D1[0], [{'R': 1, 'S': 1}, {'R': 1, 'S': 2}], {'R': CAL[0], 'S': q}, ('S',), mm, 4, True) for q in (2, 3) for mm in (None, {0: {2: (3, {'R': 0, 'S': 0})}})]
    cases += [(e, (1, 2, 1), [{'R': 1}, {'R': 1}, {'R': 2}], {'R': 2}, (), None, 4, False) for e in P.dags(3)[1::2]]
    ck.run(cases, execute, 'models executed as domains', chunk=1, timeout=600)
    C = [[3, 1, 3, 0, 3, 3], [1, 3, 2, 3, 3, 3]]
    cases = [(k, e, d, cal, rn, x) for k in ('SingleModeRCPSP', 'MultiModeRCPSP', 'MultiModeRCPSPWithCost', 'SingleModeRCPSPCalendar', 'MultiModeRCPSPCalendar') for e in ((), ((2, 3),))
             for d in ((1, 2, 3), (3, 1, 1)) for cal in (C if 'Calendar' in k else [None]) for rn in ((True, False) if k.startswith('Multi') else (True,)) for x in (False, True)]
    ck.run(cases, from_domain, 'models of domains', chunk=4)
    ck.run([('SingleModeRCPSP_Stochastic_Durations', l) for l in itertools.product(range(3), repeat=2)], sampled, 'models of uncertain domains', chunk=1)
    ck.run([(e, d, noisy, nr, mm, H) for e in ((), ((0, 1),)) for d in ((1, 2), (0, 12), (11, 10)) for noisy in (None, (2,), (), (1, 2, 3)) for nr in ((), ('S',))
            for mm in (None, {0: {2: (3, {'R': 1, 'S': 0})}}) for H in (6,)], stochastic, 'uncertain from deterministic', chunk=4)
    ck.run([(e, l, l2, nr, 7, nb) for e in ((), ((0, 1),)) for l in ((0, 1), (2, 0), (1, 2)) for l2 in (None, 0, 1) for nr in ((), ('S',)) for nb in (1, 2) if nb == 1 or l2 is None],
           determinised, 'deterministic from uncertain', chunk=1, timeout=120)
    ck.run([(w, (e, l, l2, nr, 4)) for w in ('plain', 'calendar') for e in ((), ((0, 1),)) for l in ((0, 1), (2, 0)) for l2 in (None, 0) for nr in ((), ('S',))],
           uncertain_execution, 'uncertain domains executed', chunk=1, timeout=300)
    caps = [({'a': 1, 'b': 0}, {'a': 0, 'b': 2}), ({'a': 2}, {'b': 1}, {'a': 1, 'b': 1})]
    needs = [({'a': 1, 'b': 0}, {'a': 1, 'b': 2}, {'a': 0, 'b': 1}), ({'a': 2, 'b': 1}, {'a': 0, 'b': 0}, {'a': 1, 'b': 0})]
    cals = [lambda n, H: [[1] * (H + 1)] * n, lambda n, H: [[1, 0] + [1] * (H - 1), [1, 1, 0] + [1] * (H - 2), [0] + [1] * H][:n]]
    ck.run([(v, cp, tuple(map(tuple, cl(len(cp), 6))), nd, var, nr, 6) for v in (False, True) for cp in caps for cl in cals for nd in needs for var in (False, True) for nr in ((), ('N',))],
           skills, 'models with skills', chunk=1)
    ck.run([(o, n, v, 5, sk) for sk in ('ab', 'b') for o in ((1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3), (3, 1, 4, 2)) for n in itertools.permutations(('u0', 'u1', 'u2')) for v in (False, True)], shuffled, 'tasks and units in any order', chunk=4)
    ck.run([8], parsed, 'instances of the library', chunk=1, timeout=300)
    ck.sample({'edges': [[0, 1]], 'durations': [1, 2], 'capacity': 2, 'horizon': 4})
