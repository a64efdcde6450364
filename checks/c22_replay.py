"""C22: policies which follow a solution (its schedule, or its order of tasks) on a scheduling domain."""
import itertools
from copy import deepcopy
from mc.core import expect, expect_eq, THOROUGH
from checks import nogurobi
from checks import rcpspref as P
from checks import schedref as R
from checks.c20_rcpsp import build_model, extended
from checks.c21_binding import spec_of
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as M
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel_Variant, MS_RCPSPSolution, MS_RCPSPSolution_Variant, Employee, SkillDetail
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod as B
from skdecide.hub.solver.do_solver.sk_to_do_binding import build_sk_domain
from skdecide.hub.solver.do_solver import do_solver_scheduling as S

METHODS = (B.FOLLOW_GANTT, B.SGS_PRECEDENCE, B.SGS_READY, B.SGS_STRICT, B.SGS_TIME_FREEDOM, B.SGS_INDEX_FREEDOM)


def allowed(ref, st, method, order, modes, schedule, dt, di, units):
    """the actions the method may choose in this state"""
    poss = [t for t in order if t in ref.by(st, 'remaining') and ref.preds_done(st, t)]
    fits = lambda t: ref.fits(st, t, modes[t], units.get(t, ()))
    if method is B.FOLLOW_GANTT:
        now = [t for t in poss if schedule[t] == st[0]]
        out = [t for t in now if fits(t)]
        return out + ([None] if len(out) < len(now) or not now else [])
    cand = list(poss)
    if cand and method is not B.SGS_READY:
        i0 = order.index(cand[0])
        if method is B.SGS_INDEX_FREEDOM:
            cand = [t for t in cand if order.index(t) <= i0 + di]
        elif schedule is None:
            cand = cand[:1]
        else:
            s0 = schedule[cand[0]]
            cand = [t for t in cand if (s0 <= schedule[t] <= s0 + dt if method is B.SGS_TIME_FREEDOM else schedule[t] == s0)]
    for t in cand:
        if fits(t):
            return [t]
    return [None]


def check_action(ref, st, a, want, modes, units, at):
    k = R.akey(a)
    ok = [('TIME_PR', None, None, True, ()) if t is None else ('START', t, modes[t], False, tuple(sorted(units.get(t, ())))) for t in want]
    expect(k in ok, lambda: '%s: action %r, expected one of %r' % (at(), k, ok))
    return k


# ------------------------------------------------------------------------------------------------ the choice, in every reachable state
def choice(rec, c):
    kind, edges, dur, cap, needs, orders, dates, deltas = c
    succ = {1: [2, 3, 4], 2: [5], 3: [5], 4: [5], 5: []}
    for a, b in edges:
        succ[a].append(b)
    spec = {'tasks': [1, 2, 3, 4, 5], 'succ': succ, 'types': ['R'], 'res': {'R': cap}, 'horizon': 7 if THOROUGH else 4,
            'modes': {t: {1: {'R': n}} for t, n in zip((1, 2, 3, 4, 5), (0,) + needs + (0,))}, 'dur': {t: {1: d} for t, d in zip((1, 2, 3, 4, 5), (0,) + dur + (0,))}}
    modes = {t: 1 for t in spec['tasks']}
    if kind.startswith('Multi'):
        spec['modes'][3][2] = {'R': 1}
        spec['dur'][3][2] = 2
        modes[3] = 2
    dom = R.make(kind, spec)
    spec = dom.spec
    ref = R.Ref(spec)
    states, todo = {ref.initial(): dom.get_initial_state()}, [ref.initial()]
    while todo:
        st = todo.pop()
        if ref.terminal(st):
            continue
        for a in ref.actions(st):
            for st2 in ref.next(st, *a):
                if st2 not in states:
                    nxt = dom.get_next_state_distribution(states[st], R.action(*a)).get_values() if 'Stochastic' in kind else [(dom.get_next_state(states[st], R.action(*a)), 1.)]
                    for s2, _p in nxt:
                        if R.matches(ref, s2, st2) is None:
                            states[st2] = s2
                            todo.append(st2)
                            break
    rec.state()
    rec.count('domain states', len(states))
    # several orders and dates: all of them in every state
    for order in orders:
        for ds in dates:
            sched = None if ds is None else dict(zip(spec['tasks'], ds))
            for method in METHODS:
                if sched is None and method is B.FOLLOW_GANTT:
                    continue
                for dt, di in (deltas if method in (B.SGS_TIME_FREEDOM, B.SGS_INDEX_FREEDOM) else deltas[:1]):
                    pol = PolicyRCPSP(domain=dom, policy_method_params=PolicyMethodParams(method, delta_time_freedom=dt, delta_index_freedom=di), permutation_task=list(order),
                                      modes_dictionnary=dict(modes), schedule=None if sched is None else {t: {'start_time': s, 'end_time': s + spec['dur'][t][modes[t]] if 'Stoch' not in kind else s} for t, s in sched.items()})
                    for st, s in states.items():
                        if ref.terminal(st):
                            continue
                        rec.trans()
                        at = lambda: '%s with order %r and dates %r (freedom %r, %r) in state %r of %r' % (method.name, order, ds, dt, di, st, c[:5])
                        want = allowed(ref, st, method, list(order), modes, sched, dt, di, {})
                        k = check_action(ref, st, pol.get_next_action(s), want, modes, {}, at)
                        expect(pol.is_policy_defined_for(s) is True, lambda: at() + ': the policy is said undefined')
                        rec.outcome((method.name, k))
    for st, s in states.items():
        R.expect_state(ref, s, st, 'state modified by the policies')


# ------------------------------------------------------------------------------------------------ following solutions
def follow(rec, c):
    edges, durs, needs, res, nr, more, H, varying = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H)
    dom = build_sk_domain(model, varying) if varying else build_sk_domain(model)
    spec = spec_of(inst, H)
    ref = R.Ref(spec)
    ids = inst['tasks']
    inst2 = dict(inst, res={r: q if isinstance(q, int) else list(q) + [q[-1]] * (2 * H) for r, q in inst['res'].items()})
    rec.state()
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in ids[1:-1]]):
        ext = extended(inst, ms)
        if any(P.total(inst2, ext, r) > P.avail(inst2, r, 0) for r in nr):
            continue
        dur = {t: inst['modes'][t][ext[t]]['duration'] for t in ids}
        for starts in itertools.product(*[range(H - dur[t] + 1) for t in ids[1:]]):
            sched = dict(zip(ids, (0,) + starts))
            if sched[ids[-1]] > H or not P.feasible(inst2, ext, sched):
                continue
            sol = M.RCPSPSolution(problem=model, rcpsp_modes=list(ms), rcpsp_schedule={t: {'start_time': s, 'end_time': s + dur[t]} for t, s in sched.items()})
            order = sorted(ids, key=lambda t: (sched[t], t))
            for method in METHODS:
                for dt, di in ((1, 1),) if method in (B.SGS_TIME_FREEDOM, B.SGS_INDEX_FREEDOM) else ((10, 10),):
                    rec.trans()
                    pol = S.from_solution_to_policy(sol, dom, PolicyMethodParams(method, delta_time_freedom=dt, delta_index_freedom=di))
                    at = lambda: '%s of schedule %r in modes %r of %r' % (method.name, sched, ms, c)
                    expect_eq(list(pol.permutation_task), order, lambda: at() + ': order of the tasks')
                    st, s = ref.initial(), dom.get_initial_state()
                    n = 0
                    pol.reset()
                    while not ref.goal(st) and n < 8 * H and st[0] <= H:
                        n += 1
                        k = check_action(ref, st, pol.get_next_action(s), allowed(ref, st, method, order, ext, sched, dt, di, {}), ext, {}, lambda: '%s in state %r' % (at(), st))
                        (st, _p), = ref.next(st, *k[:3]).items()
                        s = dom.get_next_state(s, R.action(*k[:3]))
                    R.expect_state(ref, s, st, lambda: at() + ': last state')
                    got = {t: ref.rec(st, t)[4] for t in ids}
                    rec.trace()
                    if method is B.FOLLOW_GANTT:
                        expect(ref.goal(st) and got == sched, lambda: '%s: executed as %r' % (at(), got))
                    elif method is B.SGS_READY and not varying:
                        # it never waits when it can start something
                        expect(ref.goal(st) or st[0] > H, lambda: at() + ': does not end')
                        expect(None in got.values() or P.feasible(inst2, ext, got), lambda: '%s: executed as %r, which is not feasible' % (at(), got))
                    rec.outcome((method.name, tuple(got.values())))


# ------------------------------------------------------------------------------------------------ with employees
def employees(rec, c):
    levels, cals, needs, variant, H, one = c      # one: employees declared from the last to the first
    tasks = [1, 2, 3, 4]
    succ = {1: [2, 3], 2: [4], 3: [4], 4: []}
    md = {1: {1: {'duration': 0, 'R': 0, 'a': 0, 'b': 0}}, 2: {1: dict({'duration': 2, 'R': 1}, **needs[0])},
          3: {1: dict({'duration': 1, 'R': 1}, **needs[1]), 2: dict({'duration': 2, 'R': 2}, **needs[1])}, 4: {1: {'duration': 0, 'R': 0, 'a': 0, 'b': 0}}}
    emps = {i: Employee(dict_skill={s: SkillDetail(v, 1., 1.) for s, v in sk.items()}, calendar_employee=[bool(x) for x in cal]) for i, (sk, cal) in sorted(enumerate(zip(levels, cals)), reverse=one)}
    model = MS_RCPSPModel_Variant(skills_set={'a', 'b'}, resources_set={'R'}, non_renewable_resources=set(), resources_availability={'R': [2] * (3 * H)}, employees=emps,
                                  employees_availability=[sum(x) for x in zip(*cals)], mode_details=deepcopy(md), successors=deepcopy(succ), horizon=H, horizon_multiplier=1)
    dom = build_sk_domain(model, True)
    names = [str(i) for i in emps]
    spec = R.full({'tasks': tasks, 'succ': succ, 'types': ['R'], 'units': names, 'modes': {t: {m: {'R': d['R']} for m, d in ms.items()} for t, ms in md.items()}, 'horizon': H,
                   'dur': {t: {m: d['duration'] for m, d in ms.items()} for t, ms in md.items()},
                   'res': dict({'R': 2}, **{n: [int(x) for x in cals[int(n)]] for n in names}), 'rskills': {n: dict(levels[int(n)]) for n in names},
                   'tskills': {t: {m: {k: d[k] for k in 'ab' if d.get(k)} for m, d in ms.items()} for t, ms in md.items()}})
    ref = R.Ref(spec)
    rec.state()
    for modes in ((1, 1), (1, 2)):
        for perm in ((0, 1), (1, 0)):
            for prio in itertools.product(list(itertools.permutations(range(len(emps)))), repeat=2):
                sol = MS_RCPSPSolution_Variant(problem=model, modes_vector=list(modes), priority_list_task=list(perm), priority_worker_per_task=[list(p) for p in prio])
                if not model.satisfy(sol) or len(sol.schedule) < 4:
                    continue
                ext = dict(zip(tasks, (1,) + modes + (1,)))
                if not variant:
                    sol = MS_RCPSPSolution(problem=model, modes=dict(ext), schedule=sol.schedule, employee_usage=sol.employee_usage)
                sched = {t: v['start_time'] for t, v in sol.schedule.items()}
                order = sorted(tasks, key=lambda t: (sched[t], t))
                units = {t: [str(e) for e in us] for t, us in sol.employee_usage.items()}
                for method in METHODS:
                    rec.trans()
                    pol = S.from_solution_to_policy(sol, dom, PolicyMethodParams(method, delta_time_freedom=1, delta_index_freedom=1))
                    at = lambda: '%s of schedule %r in modes %r with employees %r of %r' % (method.name, sched, modes, units, c)
                    st, s = ref.initial(), dom.get_initial_state()
                    n = 0
                    while not ref.goal(st) and n < 8 * H and st[0] <= H:
                        n += 1
                        k = check_action(ref, st, pol.get_next_action(s), allowed(ref, st, method, order, ext, sched, 1, 1, units), ext, units, lambda: '%s in state %r' % (at(), st))
                        us = k[4] if k[0] == 'START' else ()
                        (st, _p), = ref.next(st, *k[:3], us).items()
                        s = dom.get_next_state(s, R.action(*k[:3], us))
                    R.expect_state(ref, s, st, lambda: at() + ': last state')
                    rec.trace()
                    if method is B.FOLLOW_GANTT:
                        got = {t: ref.rec(st, t)[4] for t in tasks}
                        expect(ref.goal(st) and got == sched, lambda: '%s: executed as %r' % (at(), got))
                    rec.outcome((method.name, st[0], tuple(sorted(us for us in units))))


# ------------------------------------------------------------------------------------------------ the solver
def solved(rec, c):
    """DOSolver with the greedy method: what it follows is a schedule of the problem"""
    edges, durs, needs, cap = c
    H = sum(durs) + 1
    inst = P.instance(edges, durs, needs, {'R': cap}, ())
    dom = R.make('SingleModeRCPSP', spec_of(inst, H))
    ref = R.Ref(dom.spec)
    ids = inst['tasks']
    ext = {t: 1 for t in ids}
    rec.state()
    solver = S.DOSolver(policy_method_params=PolicyMethodParams(B.FOLLOW_GANTT), method=S.SolvingMethod.PILE)
    solver.solve(lambda: dom)
    sched = {t: v['start_time'] for t, v in solver.best_solution.rcpsp_schedule.items()}
    at = lambda: 'greedy solution %r of %r' % (sched, c)
    expect(P.feasible(inst, ext, sched), lambda: at() + ' is not feasible')
    for pol, method in [(solver, B.FOLLOW_GANTT), (solver.get_external_policy(), B.FOLLOW_GANTT)] + [(solver.compute_external_policy(PolicyMethodParams(m)), m) for m in METHODS]:
        rec.trans()
        st, s = ref.initial(), dom.get_initial_state()
        order = sorted(ids, key=lambda t: (sched[t], t))
        while not ref.goal(st):
            expect(st[0] <= H, lambda: at() + ': following it by %s does not end' % method.name)
            expect(pol.is_policy_defined_for(s) is True, lambda: at() + ': the policy is said undefined')
            k = check_action(ref, st, pol.get_next_action(s), allowed(ref, st, method, order, ext, sched, 10, 10, {}), ext, {}, lambda: '%s by %s in state %r' % (at(), method.name, st))
            (st, _p), = ref.next(st, *k[:3]).items()
            s = dom.get_next_state(s, R.action(*k[:3]))
        got = {t: ref.rec(st, t)[4] for t in ids}
        rec.trace()
        expect(P.feasible(inst, ext, got), lambda: '%s by %s: executed as %r' % (at(), method.name, got))
        if method is B.FOLLOW_GANTT:
            expect_eq(got, sched, lambda: at() + ': executed')
        rec.outcome(tuple(got.values()))


def build(ck):
    ck.rule = ('in every reachable state of small domains, for all orders of tasks, start dates and freedoms: the action of each policy is the one its definition gives; '
               'every feasible schedule of small instances is followed step by step, and reproduced exactly when following the dates')
    ck.scope = '3 tasks between source and sink, durations 0-3, 1-2 modes, calendars, uncertain durations, 2-3 employees; greedy solver on all precedence graphs of 3 tasks'
    base = list(itertools.permutations((2, 3, 4)))
    orders = [(1,) + p + (5,) for p in base] + [(5, 4, 1, 3, 2), (2, 1, 4, 5, 3)]
    dates = [None] + [(0, a, b, d, 3) for a in (0, 1, 2) for b in (0, 1) for d in (0, 1, 2)]
    deltas = [(0, 0), (1, 1), (2, 2), (10, 10)]
    cases = [(k, e, d, cap, n, orders[i::4], dates, deltas) for k in ('SingleModeRCPSP', 'MultiModeRCPSP') for e in ((), ((2, 3),), ((3, 2), (3, 4)))
             for d, cap, n in (((1, 2, 1), 2, (1, 2, 1)), ((2, 0, 1), 2, (2, 0, 1)), ((1, 3, 2), 3, (2, 2, 1))) for i in range(4)]
    cases += [('MultiModeRCPSPCalendar', e, (1, 2, 1), [2, 1, 2, 0, 2, 2, 2, 2], (1, 2, 1), orders[i::4], dates[::3], deltas) for e in ((), ((2, 3),)) for i in range(4)]
    cases += [('SingleModeRCPSP_Stochastic_Durations', e, ([(1, .5), (2, .5)], [(1, .5), (3, .5)], 1), 2, (1, 2, 1), orders[i::4], dates[::3], deltas) for e in ((), ((2, 3),)) for i in range(4)]
    if not THOROUGH:
        cases = [c[:6] + ([None] + c[6][1 + i % 3::3], c[7][i % 2::2] if i % 4 else c[7]) for i, c in enumerate(cases)]
    ck.run(cases, choice, 'choice of the policies', chunk=1, timeout=300)
    ND = [[{'R': 1}, {'R': 2}], [{'R': 2}, {'R': 1}], [{'R': 1}, {'R': 1}]]
    cases = [(e, d, n, {'R': 2}, (), None, 5, False) for e in ((), ((0, 1),)) for d in ((1, 2), (2, 1), (3, 1)) for n in ND]
    cases += [(e, d, [{'R': 1, 'S': 1}, {'R': 2, 'S': 2}], {'R': 2, 'S': 3}, ('S',), mm, 5, False) for e in ((), ((0, 1),)) for d in ((1, 2), (2, 1)) for mm in (None, {0: {2: (3, {'R': 0, 'S': 0})}})]
    cases += [(e, d, n, {'R': [2, 1, 2, 0, 2, 2, 2, 2]}, (), None, 5, True) for e in ((), ((0, 1),)) for d in ((1, 2), (2, 1)) for n in ND]
    cases += [(e, (1, 2, 1), [{'R': 1}, {'R': 1}, {'R': 2}], {'R': 2}, (), None, 5, False) for e in P.dags(3)[1::2]]
    ck.run(cases, follow, 'schedules followed', chunk=1, timeout=300)
    L2, L3 = ({'a': 1, 'b': 1}, {'a': 1, 'b': 2}), ({'a': 1}, {'b': 1}, {'a': 1, 'b': 1})
    H = 7
    full = lambda n: tuple((1,) * (3 * H) for _ in range(n))
    some = lambda n: (((1, 0, 1) + (1,) * (3 * H - 3)), ((0, 1) + (1,) * (3 * H - 2)), (1,) * (3 * H))[:n]
    needs = [({'a': 1, 'b': 1}, {'a': 1, 'b': 0}), ({'a': 2, 'b': 1}, {'a': 0, 'b': 0}), ({'a': 0, 'b': 2}, {'a': 1, 'b': 1})]
    ck.run([(l, cal(len(l)), n, v, H, rv) for rv in (False, True) for l in (L2, L3) for cal in (full, some) for n in needs for v in (False, True)], employees, 'with employees', chunk=1, timeout=300)
    ck.run([(e, d, n, cap) for e in P.dags(3) for d in ((1, 2, 3), (2, 1, 1), (0, 2, 1)) for n, cap in (([{'R': 1}, {'R': 2}, {'R': 1}], 2), ([{'R': 2}, {'R': 2}, {'R': 1}], 3))],
           solved, 'greedy solver', chunk=8, timeout=120)
    ck.sample({'order': [1, 2, 3, 4, 5], 'dates': [0, 0, 1, 2, 3]})
