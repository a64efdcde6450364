"""C35: the solver of scheduling domains which goes through optimisation problems, for each kind of domain and each method."""
import contextlib
import io
import itertools
from mc.core import expect, expect_eq, THOROUGH
from checks import nogurobi, mipstand
from checks import rcpspref as P
from checks import schedref as R
from checks import c28_rcpspexact as S1
from checks import c29_multiskill as S2
from checks import c30_multiexact as S3
from checks.c21_binding import spec_of
from checks.c22_replay import B, METHODS, PolicyMethodParams, PolicyRCPSP, allowed, check_action
from checks.c26_combsolvers import cp
from checks.c27_rcpspheur import data_free
from checks.neigh import every
with data_free():
    from skdecide.hub.solver.do_solver import do_solver_scheduling as S
    from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain, build_sk_domain
    from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_pile import PileSolverRCPSP, PileSolverRCPSP_Calendar, GreedyChoice
    from skdecide.builders.discrete_optimization.rcpsp.solver.ls_solver import LS_SOLVER
    from skdecide.builders.discrete_optimization.rcpsp.solver import rcpsp_cp_lns_solver as NC
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers import ms_rcpsp_cp_lns_solver as MC

MULTI = ('LS', 'LP', 'CP', 'LNS_CP', 'LNS_CP_CALENDAR', 'GA')
NAMES = {'greedy': 'PILE', 'ga': 'GA', 'ls': 'LS', 'lp': 'LP', 'cp': 'CP', 'lns-lp': 'LNS_LP', 'lns-cp': 'LNS_CP', 'lns-cp-calendar': 'LNS_CP_CALENDAR'}
CLASS = {'PILE': ('PileSolverRCPSP', 'PileSolverRCPSP_Calendar'), 'LS': ('LS_RCPSP_Solver',), 'LP': ('LP_RCPSP', 'LP_MRCPSP'), 'CP': ('CP_RCPSP_MZN', 'CP_MRCPSP_MZN'),
         'LNS_CP': ('LNS_CP_RCPSP_SOLVER',), 'LNS_CP_CALENDAR': ('SolverWithCalendarIterative',)}
MS_CLASS = {'LS': ('LS_RCPSP_Solver',), 'LP': ('LP_Solver_MRSCPSP',), 'CP': ('CP_MS_MRCPSP_MZN',), 'LNS_CP': ('LNS_CP_MS_RCPSP_SOLVER',), 'LNS_CP_CALENDAR': ('SolverWithCalendarIterative',)}


def params(method, multi=False):
    """few iterations for the methods which draw, the rest by default"""
    if method == 'LNS_CP_CALENDAR' and multi:
        return {'nb_iteration_lns': 2, 'parameters_cp': cp(True), 'option_neighbor': MC.OptionNeighbor.DEBUG}
    if method == 'LNS_CP':
        return {'nb_iteration_lns': 2 if multi or THOROUGH else 1, 'parameters_cp': cp(), 'option_neighbor': (MC if multi else NC).OptionNeighbor.DEBUG}
    return {'LS': {'nb_iteration_max': 1}, 'CP': {'parameters_cp': cp(True)}, 'LNS_CP_CALENDAR': {'nb_iteration_lns': 1, 'parameters_cp': cp(True)}}.get(method, {})


def bound(method):
    """the calendar search draws much: all its executions within a number of departures from the first alternatives"""
    return {'LNS_CP_CALENDAR': 2 if THOROUGH else 1, 'LNS_CP': None if THOROUGH else 2}.get(method)


def solved(dom, method, base, extra=None):
    given = dict(params(method, extra == 'multi'))
    if isinstance(extra, dict):
        given.update(extra)
    solver = S.DOSolver(policy_method_params=base, method=S.SolvingMethod[method], dict_params=given) if given else S.DOSolver(policy_method_params=base, method=S.SolvingMethod[method])
    with contextlib.redirect_stdout(io.StringIO()):
        solver.solve(lambda: dom)
    return solver


def reachable(dom, ref, uncertain):
    states, todo = {ref.initial(): dom.get_initial_state()}, [ref.initial()]
    while todo:
        st = todo.pop()
        if ref.terminal(st):
            continue
        for a in ref.actions(st):
            for st2 in ref.next(st, *a):
                if st2 not in states:
                    nxt = dom.get_next_state_distribution(states[st], R.action(*a)).get_values() if uncertain else [(dom.get_next_state(states[st], R.action(*a)), 1.)]
                    for s2, _p in nxt:
                        if R.matches(ref, s2, st2) is None:
                            states[st2] = s2
                            todo.append(st2)
                            break
    return states


def execute(rec, dom, ref, pol, method, order, modes, sched, units, H, at, uncertain=False):
    """all the executions of the policy: chosen actions, and the last states"""
    ends = []
    todo = [(ref.initial(), dom.get_initial_state())]
    n = 0
    while todo:
        st, s = todo.pop()
        if ref.goal(st) or st[0] > H:
            ends.append((st, s))
            continue
        n += 1
        expect(n < 400, lambda: '%s: following it by %s does not end' % (at(), method.name))
        expect(pol.is_policy_defined_for(s) is True, lambda: '%s: the policy is said undefined' % at())
        k = check_action(ref, st, pol.get_next_action(s), allowed(ref, st, method, order, modes, sched, 1, 1, units), modes, units, lambda: '%s by %s in state %r' % (at(), method.name, st))
        us = k[4] if k[0] == 'START' else ()
        rec.trans()
        for st2 in ref.next(st, *k[:3], *([us] if units else [])):
            if uncertain:
                s2, = [v for v, _p in dom.get_next_state_distribution(s, R.action(*k[:3])).get_values() if R.matches(ref, v, st2) is None][:1]
            else:
                s2 = dom.get_next_state(s, R.action(*k[:3], us)) if units else dom.get_next_state(s, R.action(*k[:3]))
            todo.append((st2, s2))
    rec.trace()
    for st, s in ends:
        R.expect_state(ref, s, st, lambda: '%s by %s: last state' % (at(), method.name))
    return [st for st, _s in ends]


def makespan_bounds(method, inst, ref_inst, H, mk, pile, rec, at, calendar):
    if method in ('LP', 'CP'):
        opt = S1.best(ref_inst, S1.total(inst, H), None, rec)
        expect_eq(mk, opt, lambda: at() + ': makespan of an exact method')
    elif pile is not None and (method == 'LNS_CP' or method == 'LS'):
        expect(mk <= pile, lambda: '%s: makespan %r, above the one %r it starts from' % (at(), mk, pile))


def methods(rec, c):
    """one domain, one method: what is solved, and how it is followed"""
    kind, spec, method, extra = c
    inst, _m = S1.setting(spec)
    H = spec[-1]
    uncertain = 'Stochastic' in kind
    sp = spec_of(inst, H)
    for t, d in (extra or {}).get('durations', {}).items():
        sp['dur'][t] = {1: d}
    dom = R.make(kind, sp)
    sp = dom.spec
    ref = R.Ref(sp)
    T = inst['tasks']
    own = {k: v for k, v in (extra or {}).items() if k != 'durations'}
    base = [m for m in METHODS if m is not B.FOLLOW_GANTT or not uncertain]
    base = base[(len(method) + len(kind) + len(spec[0])) % len(base)] if uncertain else B.FOLLOW_GANTT
    states = reachable(dom, ref, uncertain) if len(T) <= 4 and (H <= 8) else None

    def once():
        return solved(dom, method, PolicyMethodParams(base, delta_time_freedom=1, delta_index_freedom=1), dict(own))
    seen = set()
    for solver in every(once, subsets=True, floats=(0.1, 0.9) if method == 'LS' else (0.5,), deviations=bound(method)):
        do = solver.do_domain
        sol = solver.best_solution
        rec.state()
        at = lambda: '%s of the domain %s of %r%s' % (method, kind, spec, own or '')
        expect(type(solver.solver).__name__ in CLASS[method], lambda: '%s: solved by %s' % (at(), type(solver.solver).__name__))
        modes = dict(zip(T, [1] + list(sol.rcpsp_modes) + [1]))
        sched = S1.starts_of(sol)
        got = dict(inst, modes={t: {m: dict(d, duration=do.mode_details[t][m]['duration']) for m, d in ms.items()} for t, ms in inst['modes'].items()},
                   res={r: q if isinstance(q, int) else list(q) + [q[-1]] * 80 for r, q in inst['res'].items()})
        if uncertain:
            for t, d in extra['durations'].items():
                ok = [x for x, p in d] if isinstance(d, list) else [d]
                expect(do.mode_details[t][1]['duration'] in ok, lambda: '%s: duration %r of %r' % (at(), do.mode_details[t][1]['duration'], t))
        good = P.feasible(got, modes, sched) and all(modes[t] in inst['modes'][t] for t in T)
        calendar = any(not isinstance(q, int) for q in inst['res'].values())
        expect(good or method == 'LNS_CP_CALENDAR' and calendar, lambda: '%s: not a schedule of the problem: %r in modes %r' % (at(), sched, modes))
        mk = sched[T[-1]]
        if good:
            pile = None
            if not inst['nr'] and not uncertain:
                ini = (PileSolverRCPSP_Calendar if calendar else PileSolverRCPSP)(do).solve() if method == 'LNS_CP' else None
                pile = S1.starts_of(ini.list_solution_fits[0][0])[T[-1]] if ini is not None else None
                if method == 'LS':
                    pile = S1.starts_of(do.get_dummy_solution())[T[-1]]
            makespan_bounds(method, got, dict(got, modes=got['modes']), H, mk, pile, rec, at, calendar)
        choice = own.get('greedy_choice', GreedyChoice.MOST_SUCCESSORS)
        if method == 'PILE' and choice in (GreedyChoice.MOST_SUCCESSORS, GreedyChoice.FASTEST):
            want = (PileSolverRCPSP_Calendar if calendar else PileSolverRCPSP)(do).solve(greedy_choice=choice)
            expect_eq(sched, S1.starts_of(want.list_solution_fits[0][0]), lambda: at() + ': greedy schedule')
        key = (tuple(sorted(sched.items())), tuple(modes.values()), tuple(do.mode_details[t][1]['duration'] for t in T))
        rec.outcome((method, mk))
        if key in seen or not good:
            continue
        seen.add(key)
        order = sorted(T, key=lambda t: (sched[t], t))
        at = lambda: '%s of the domain %s of %r%s: schedule %r, modes %r' % (method, kind, spec, own or '', sched, modes)

        def own_policy(pol, m, what):
            if states is None:
                return
            for st, s in states.items():
                if not ref.terminal(st):
                    check_action(ref, st, pol.get_next_action(s), allowed(ref, st, m, order, modes, sched, 1, 1, {}), modes, {}, lambda: '%s: %s, %s in state %r' % (at(), what, m.name, st))
                    rec.trans()
        own_policy(solver, base, 'policy of the solver')
        ext = {}
        for m in METHODS:
            ext[m] = solver.compute_external_policy(PolicyMethodParams(m, delta_time_freedom=1, delta_index_freedom=1))
        own_policy(solver, base, 'policy of the solver after others were asked')
        own_policy(solver.get_external_policy(), base, 'policy given')
        for m in METHODS:
            own_policy(ext[m], m, 'policy asked')
        horizon = sp['horizon']
        for pol, m in [(solver, base)] + list((p, m) for m, p in ext.items()):
            if m is B.FOLLOW_GANTT and uncertain:
                continue
            for st in execute(rec, dom, ref, pol, m, order, modes, sched, {}, horizon, at, uncertain):
                if m is B.FOLLOW_GANTT and mk <= horizon:
                    dates = {t: ref.rec(st, t)[4] for t in T}
                    expect(ref.goal(st) and dates == sched, lambda: '%s: followed as %r' % (at(), dates))


def team(rec, c):
    """domains with skills"""
    inst, method, base, one = c
    m = S2.model(inst)
    dom = build_sk_domain(m, True)
    if one:
        listed = list(reversed(sorted(str(e) for e in inst['emp'])))
        dom._get_resource_units_names = lambda: list(listed)
    T = inst['tasks']
    names = sorted(str(e) for e in inst['emp'])
    md = inst['modes']
    H = inst['H']
    flat = lambda q: [int(x) for x in q]
    spec = R.full({'tasks': T, 'succ': inst['succ'], 'types': list(inst['res']), 'units': [str(e) for e in inst['emp']], 'horizon': H,
                   'renew': dict({r: r not in inst['nr'] for r in inst['res']}, **{n: True for n in names}),
                   'modes': {t: {k: {r: d.get(r, 0) for r in inst['res']} for k, d in ms.items()} for t, ms in md.items()},
                   'dur': {t: {k: d['duration'] for k, d in ms.items()} for t, ms in md.items()},
                   'res': dict({r: flat(q) for r, q in inst['res'].items()}, **{str(e): flat(cal) for e, (_s, cal) in inst['emp'].items()}),
                   'rskills': {str(e): dict(sk) for e, (sk, _c) in inst['emp'].items()},
                   'tskills': {t: {k: {x: d[x] for x in inst['skills'] if d.get(x)} for k, d in ms.items()} for t, ms in md.items()}})
    ref = R.Ref(spec)
    last = min([H] + [len(q) - 1 for q in inst['res'].values()] + [len(cal) - 1 for _, cal in inst['emp'].values()])
    at0 = lambda: '%s of the domain with skills %r' % (method, inst)

    def once():
        return solved(dom, method, PolicyMethodParams(base, delta_time_freedom=1, delta_index_freedom=1), 'multi')
    seen = set()
    for solver in every(once, subsets=True, floats=(0.1, 0.9) if method == 'LS' else (0.5,), deviations=bound(method)):
        rec.state()
        sol = solver.best_solution
        expect(type(solver.solver).__name__ in MS_CLASS[method], lambda: '%s: solved by %s' % (at0(), type(solver.solver).__name__))
        sched, modes = S2.starts_of(sol), {t: sol.modes[t] for t in T}
        # employees of the model are numbered in the order of their names
        numbers = sorted(solver.do_domain.employees)
        back = dict(zip(numbers, names))
        ids = {str(e): e for e in inst['emp']}
        use = {t: {ids[back[e]]: sk for e, sk in us.items()} for t, us in sol.employee_usage.items()}
        good = S2.valid(inst, modes, sched, use)
        expect(good or method == 'LNS_CP_CALENDAR', lambda: '%s: not a schedule of the project: %r, %r in modes %r' % (at0(), sched, use, modes))
        mk = sched[T[-1]]
        rec.outcome((method, mk))
        if method in ('CP', 'LP'):
            opt = S3.best(inst, last, last, 'exact' if method == 'CP' else '', None, rec)
            expect_eq(mk, opt, lambda: at0() + ': makespan of an exact method')
        units = {t: [str(e) for e in us] for t, us in use.items()}
        key = (tuple(sorted(sched.items())), tuple(sorted(modes.items())), tuple(sorted((t, tuple(sorted(u))) for t, u in units.items())))
        if key in seen or not good:
            continue
        seen.add(key)
        order = sorted(T, key=lambda t: (sched[t], t))
        at = lambda: '%s: schedule %r in modes %r by %r' % (at0(), sched, modes, use)
        ext = {x: solver.compute_external_policy(PolicyMethodParams(x, delta_time_freedom=1, delta_index_freedom=1)) for x in METHODS}
        for pol, x in [(solver, base), (solver.get_external_policy(), base)] + [(p, x) for x, p in ext.items()]:
            for st in execute(rec, dom, ref, pol, x, order, modes, sched, units, H, at):
                if x is B.FOLLOW_GANTT and mk <= H:
                    dates = {t: ref.rec(st, t)[4] for t in T}
                    expect(ref.goal(st) and dates == sched, lambda: '%s: followed as %r' % (at(), dates))


def offered(rec, c):
    """methods said available for a domain, and only they, have a solver"""
    kind, spec = c
    if kind == 'skills':
        dom = build_sk_domain(S2.model(spec), True)
        want = set(MULTI)
    else:
        inst, _m = S1.setting(spec)
        dom = R.make(kind, spec_of(inst, spec[-1]))
        calendar = any(not isinstance(q, int) for q in inst['res'].values())
        want = {'PILE', 'LS', 'LP', 'CP', 'LNS_LP', 'LNS_CP', 'LNS_CP_CALENDAR'} | (set() if calendar else {'GA'})
    do = build_do_domain(dom)
    with contextlib.redirect_stdout(io.StringIO()):
        got = S.DOSolver(policy_method_params=PolicyMethodParams(B.FOLLOW_GANTT)).get_available_methods(dom)
        names = [NAMES[key] for _c, (key, _p) in got if key in NAMES]
        expect(set(names) == want, lambda: 'methods for the domain %s %r: %r, expected %r' % (kind, spec, sorted(set(names)), sorted(want)))
        for method in S.SolvingMethod:
            b = S.build_solver(solving_method=method, do_domain=do)
            rec.trans()
            if method.name not in want:
                expect(b is None, lambda: 'solver %r by %s of the domain %s' % (b, method.name, kind))
            else:
                expect(b is not None and any(b[0] is cl and NAMES[key] == method.name for cl, (key, _p) in got), lambda: 'solver %r by %s of the domain %s' % (b, method.name, kind))
    rec.state()
    rec.outcome(tuple(sorted(want)))


def shared(rec, c):
    """solvers with parameters of their own and solvers without, one after the other"""
    kind, spec, order = c
    inst, _m = S1.setting(spec)
    T = inst['tasks']
    calendar = any(not isinstance(q, int) for q in inst['res'].values())
    cls = PileSolverRCPSP_Calendar if calendar else PileSolverRCPSP
    dom = R.make(kind, spec_of(inst, spec[-1]))
    do = build_do_domain(dom)
    alone = {k: S1.starts_of(cls(do).solve(greedy_choice=k or GreedyChoice.MOST_SUCCESSORS).list_solution_fits[0][0]) for k in set(order)}
    made = []
    for k in order:
        made.append(S.DOSolver(policy_method_params=PolicyMethodParams(B.FOLLOW_GANTT), method=S.SolvingMethod.PILE, **({'dict_params': {'greedy_choice': k}} if k is not None else {})))
    for again in (0, 1):
        for k, s in zip(order, made):
            with contextlib.redirect_stdout(io.StringIO()):
                s.solve(lambda: dom)
            expect_eq(S1.starts_of(s.best_solution), alone[k], lambda: 'greedy %s in the sequence %r of %r' % (k, order, spec))
            rec.trans()
    rec.state()
    rec.outcome(tuple(len(set(x.values())) for x in alone.values()))


TABLE = {'PILE': {'rule': 1, 'limit': 2}, 'LS': {'rounds': 3, 'limit': 4}, 'CP': {}}


def given(rec, c):
    """what solvers receive, made and used one after the other: the parameters of the caller, completed by those of the table"""
    seq, late = c
    inst, _m = S1.setting(((), (1, 2), ({'R': 1}, {'R': 2}), {'R': 2}, (), None, 5))
    dom = R.make('SingleModeRCPSP', spec_of(inst, 5))
    got = []

    class Recorder:
        def __init__(self, problem, **kw):
            self.problem, self.made = problem, kw

        def init_model(self, **kw):
            self.model = kw

        def solve(self, **kw):
            got.append((self.made, self.model, kw))
            return PileSolverRCPSP(self.problem).solve()
    table = {k: dict(v) for k, v in TABLE.items()}
    real, S.build_solver = S.build_solver, lambda solving_method, do_domain: (Recorder, (solving_method.name, table[solving_method.name]))
    try:
        todo = []
        for i, (m, own) in enumerate(seq):
            s = S.DOSolver(policy_method_params=PolicyMethodParams(B.FOLLOW_GANTT), method=S.SolvingMethod[m], **({'dict_params': dict(own)} if own is not None else {}))
            todo.append((s, m, own))
            if not late:
                with contextlib.redirect_stdout(io.StringIO()):
                    s.solve(lambda: dom)
        if late:
            with contextlib.redirect_stdout(io.StringIO()):
                for s, m, own in reversed(todo):
                    s.solve(lambda: dom)
            todo.reverse()
    finally:
        S.build_solver = real
    if got:
        expect_eq(len(got), len(seq), lambda: 'solvers made for %r' % (seq,))
    for (_s, m, own), kws in zip(todo, got):
        want = dict(TABLE[m], **(own or {}))
        for kw, what in zip(kws, ('construction', 'model', 'solution')):
            expect_eq(kw, want, lambda: 'parameters of the %s of %s %r in the sequence %r' % (what, m, own, seq))
        rec.trans()
    expect_eq(table, TABLE, lambda: 'table of the parameters after %r' % (seq,))
    rec.state()
    rec.outcome(len(got))


def build(ck):
    ck.rule = 'every random choice of every method on small domains of each kind: schedule obtained, against the enumeration of all the schedules; all executions of the solver and of its policies'
    ck.scope = '2-3 tasks between source and sink, 1-2 modes, calendars, uncertain durations, non-renewable resources, 2-3 employees; methods PILE, LS, LP, CP, LNS_CP, LNS_CP_CALENDAR; 1 iteration of the ones which draw'
    N = ({'R': 1}, {'R': 2}, {'R': 1})
    plain = [(((0, 1),), (2, 1), N[:2], {'R': 2}, (), None, 7), ((), (2, 1), N[:2], {'R': 2}, (), None, 7), ((), (1, 2, 1), N, {'R': 2}, (), None, 8), (((1, 0),), (2, 1, 2), ({'R': 1}, {'R': 1}, {'R': 1}), {'R': 2}, (), None, 8),
             (((0, 2),), (2, 3, 1), ({'R': 2}, {'R': 1}, {'R': 1}), {'R': 2}, (), None, 10), ((), (1, 3, 2), ({'R': 2, 'S': 1}, {'R': 1, 'S': 1}, {'R': 1, 'S': 1}), {'R': 3, 'S': 2}, (), None, 9)]
    multi = [((), (3, 2), ({'R': 1}, {'R': 2}), {'R': 2}, (), {0: {2: (1, {'R': 2})}, 1: {2: (1, {'R': 1})}}, 7), (((0, 1),), (1, 2), ({'R': 1}, {'R': 2}), {'R': 2}, (), {1: {2: (3, {'R': 1})}}, 7),
             ((), (2, 1), ({'R': 1, 'N': 1}, {'R': 2, 'N': 0}), {'R': 2, 'N': 1}, ('N',), {0: {2: (3, {'R': 1, 'N': 0})}}, 8)]
    multi += [(((0, 1), (1, 2)), (2, 2, 2), N, {'R': 2}, (), {0: {2: (1, {'R': 1})}, 1: {2: (3, {'R': 1}), 3: (1, {'R': 1})}, 2: {2: (1, {'R': 2})}}, 8),
              ((), (3, 3, 1), N, {'R': 2}, (), {0: {2: (2, {'R': 2}), 3: (1, {'R': 1})}, 1: {2: (1, {'R': 1})}}, 8)]
    cal = [(e, d, N[:2], {'R': [2, 1, 0, 2, 2, 1, 2, 2, 2, 2, 2, 2]}, (), None, 8) for e in ((), ((0, 1),)) for d in ((1, 2), (2, 1))]
    jobs = [('SingleModeRCPSP', s, m, None) for s in plain for m in CLASS if m != 'LS' or len(s[1]) < 3]
    jobs += [('MultiModeRCPSP', s, m, None) for s in plain[:3] + multi for m in CLASS]
    jobs += [('MultiModeRCPSPWithCost', s, m, None) for s in plain[1:2] + multi[:1] for m in CLASS]
    jobs += [(k, s, m, None) for k in ('SingleModeRCPSPCalendar', 'MultiModeRCPSPCalendar') for s in cal for m in CLASS]
    jobs += [('SingleModeRCPSP_Stochastic_Durations', s, m, {'durations': d}) for s in plain[:2] for d in ({2: [(1, .5), (2, .5)], 3: 1}, {2: 2, 3: [(1, .25), (3, .75)]}) for m in CLASS]
    jobs += [(k, s, 'PILE', {'greedy_choice': g}) for k, l in (('SingleModeRCPSP', plain), ('SingleModeRCPSPCalendar', cal)) for s in l for g in GreedyChoice]
    jobs += [('SingleModeRCPSP', s, 'LS', {'ls_solver': k, 'nb_iteration_max': n}) for s in plain[:2] for k in LS_SOLVER for n in (0, 1)]
    ck.run(jobs, methods, 'kinds of domains and methods', chunk=1, timeout=300)
    emps = [{1: ({'a': 1, 'b': 1}, []), 2: ({'a': 1}, [])}, {0: ({'a': 1}, [1]), 1: ({'b': 1}, []), 2: ({'a': 1, 'b': 1}, [3])}, {10: ({'a': 1}, []), 9: ({'a': 1, 'b': 1}, [0])}]
    pr = [S2.project([2, 1], e, n, emp, H=8, length=9) for emp in emps for e in ([], [(2, 3)]) for n in ([{'a': 1}, {'a': 1}], [{'a': 1, 'b': 1}, {'b': 1}])]
    pr += [S2.project([1, 2], [], [{'a': 1, 'r': 1}, {'r': 1}], emp, res={'r': [2, 1, 0, 1, 2, 1, 1, 1, 1]}, H=8, length=9) for emp in emps[:2]]
    bases = METHODS
    ck.run([(i, m, bases[(n + j) % len(bases)], (n + j) % 3 == 2) for j, m in enumerate(MS_CLASS) for n, i in enumerate(pr) if m != 'LS' or THOROUGH or n % 3 == 1], team, 'domains with skills', chunk=1, timeout=300)
    kinds = [('SingleModeRCPSP', plain[0]), ('MultiModeRCPSP', multi[0]), ('MultiModeRCPSPWithCost', multi[0]), ('SingleModeRCPSPCalendar', cal[0]), ('MultiModeRCPSPCalendar', cal[0]), ('skills', pr[0])]
    ck.run(kinds, offered, 'methods offered', chunk=1, timeout=100)
    G = (None, GreedyChoice.FASTEST, GreedyChoice.MOST_SUCCESSORS, GreedyChoice.TOTALLY_RANDOM)[:3]
    ck.run([(k, s, o) for k, l in (('SingleModeRCPSP', plain[2:]), ('SingleModeRCPSPCalendar', cal[:1])) for s in l for n in (2, 3) for o in itertools.product(G, repeat=n)], shared, 'parameters of several solvers', chunk=4, timeout=100)
    one = [(m, own) for m in TABLE for own in (None, {}, {'limit': 9}, {'other': 7})]
    ck.run([(q, late) for n in (1, 2, 3 if THOROUGH else 2) for q in itertools.product(one, repeat=n) for late in (False, True)], given, 'parameters given to solvers', chunk=16, timeout=100)
