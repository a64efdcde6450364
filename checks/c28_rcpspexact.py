"""C28: constraint and integer programmes of project scheduling against the enumeration of all the schedules."""
import itertools
import operator
from checks import rcpspref as P
from checks.c27_rcpspheur import D, M, build_model, data_free, dur, starts_of, topological, NEEDS
from checks.c26_combsolvers import cp, milp
from mc.core import expect, expect_eq, THOROUGH
with data_free():
    from skdecide.builders.discrete_optimization.rcpsp.solver import cp_solvers as CP, rcpsp_lp_solver as LP
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_solvers as E
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim

SOLVER = {'CHUFFED': CPSolverName.CHUFFED, 'GECODE': CPSolverName.GECODE}


def holds(p, modes, inst, s):
    """constraints of a partial solution"""
    e = {t: s[t] + dur(inst, modes, t) for t in s}
    return all(s[t] == v for t, v in p.get('start_times', {}).items()) and all(modes[t] == v for t, v in p.get('task_mode', {}).items()) \
        and all(s[a] <= s[b] for a, b in zip(p.get('partial_permutation', []), p.get('partial_permutation', [])[1:])) \
        and all(s[a] <= s[b] for l in p.get('list_partial_order', []) for a, b in zip(l, l[1:])) \
        and all(s[a] == s[b] for a, b in p.get('start_together', [])) and all(s[b] == e[a] for a, b in p.get('start_at_end', [])) \
        and all(op(s[t], v) for t, op, v in p.get('dates', [])) and all(s[b] <= e[a] for a, b in p.get('before_end', [])) \
        and all(s[b] >= e[a] + d for a, b, d in p.get('start_at_end_plus_offset', [])) and all(s[b] >= s[a] + d for a, b, d in p.get('start_after_nunit', []))


def partial(p):
    if p is None:
        return None
    x = M.PartialSolution(**{k: v for k, v in p.items() if k in ('task_mode', 'start_times', 'partial_permutation', 'list_partial_order')})
    for k in ('start_together', 'start_at_end', 'start_at_end_plus_offset', 'start_after_nunit'):
        if k in p:
            setattr(x, k, p[k])
    return x


def all_modes(inst):
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]]):
        yield dict(zip(inst['tasks'], (1,) + ms + (1,)))


def best(inst, H, p, rec):
    """smallest date of the sink over all the schedules (source and sink included) which hold the partial solution, within H"""
    order = topological(inst)
    pr = P.preds(inst)
    out = [None]
    for modes in all_modes(inst):
        if any(P.total(inst, modes, r) > P.avail(inst, r, 0) for r in inst['nr']):
            continue

        def go(i, s):
            if out[0] is not None and s and max(s.values()) >= out[0]:
                return
            if i == len(order):
                rec.states += 1
                if holds(p or {}, modes, inst, s):
                    out[0] = s[inst['tasks'][-1]]
                return
            t = order[i]
            lo = max([0] + [s[x] + dur(inst, modes, x) for x in pr[t]])
            for u in range(lo, H - dur(inst, modes, t) + 1):
                if all(P.usage(inst, modes, s, r, v) + inst['modes'][t][modes[t]][r] <= P.avail(inst, r, v)
                       for r in inst['res'] if r not in inst['nr'] for v in range(u, u + dur(inst, modes, t))):
                    s[t] = u
                    go(i + 1, s)
                    del s[t]
        go(0, {})
    return out[0]


def possible(spec):
    inst, _ = setting(spec)
    return any(all(P.total(inst, m, r) <= P.avail(inst, r, 0) for r in inst['nr']) for m in all_modes(inst))


def check(rs, inst, model, opt, p, at, rec, decreasing=False, single=False, several=None):
    if opt is None:
        expect(rs is None or not rs.list_solution_fits, lambda: '%s: solutions %r though there is none' % (at(), rs and [s.rcpsp_schedule for s, _ in rs.list_solution_fits]))
        rec.outcome('none')
        return
    expect(rs.list_solution_fits, lambda: '%s: no solution, expected %r' % (at(), opt))
    last = None
    for sol, fit in rs.list_solution_fits:
        s = starts_of(sol)
        expect_eq(sorted(s), inst['tasks'], lambda: at() + ': tasks')
        modes = dict(zip(inst['tasks'], [1] + list(sol.rcpsp_modes) + [1]))
        expect(all(modes[t] in inst['modes'][t] for t in modes), lambda: '%s: modes %r' % (at(), modes))
        expect(all(v['end_time'] == v['start_time'] + dur(inst, modes, t) for t, v in sol.rcpsp_schedule.items()), lambda: '%s: end dates %r' % (at(), sol.rcpsp_schedule))
        expect(sol.rcpsp_schedule_feasible is True and P.feasible(inst, modes, s), lambda: '%s: infeasible %r, modes %r' % (at(), s, modes))
        expect(holds(p or {}, modes, inst, s), lambda: '%s: %r, modes %r does not hold %r' % (at(), s, modes, p))
        mk = s[inst['tasks'][-1]]
        expect_eq(fit, -mk, lambda: at() + ': fitness')
        expect(last is None or not decreasing or mk < last, lambda: '%s: makespan %r after %r' % (at(), mk, last))
        last = mk
        rec.trans()
    mks = [starts_of(s)[inst['tasks'][-1]] for s, _ in rs.list_solution_fits]
    expect_eq(min(mks), opt, lambda: at() + ': best makespan')
    for b in (rs.best_solution, rs.get_best_solution()):
        expect_eq(starts_of(b)[inst['tasks'][-1]], opt, lambda: at() + ': makespan of the best solution')
    expect(not single or len(mks) == 1, lambda: '%s: %d solutions' % (at(), len(mks)))
    expect_eq(rs.mode_optim, ModeOptim.MAXIMIZATION, lambda: at() + ': sense')
    rec.outcome(opt)


def setting(c):
    edges, durs, needs, res, nr, more, H = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    return inst, build_model(inst, H)


def total(inst, H):
    """a horizon beyond which no schedule improves: the tasks one after the other, or the calendar"""
    return H if any(not isinstance(q, int) for q in inst['res'].values()) else sum(max(m['duration'] for m in ms.values()) for ms in inst['modes'].values())


def long_calendar(inst, model):
    return dict(inst, res={r: list(model.resources[r]) if not isinstance(model.resources[r], int) else q for r, q in inst['res'].items()})


def constraint(rec, c):
    """constraint programmes: one instance, one partial solution, one solver"""
    spec, p, name, how = c
    inst, model = setting(spec)
    inst = long_calendar(inst, model)
    at = lambda: '%s (%s) of %r, partial %r' % (how, name, spec, p)
    opt = best(inst, total(inst, spec[-1]), p, rec)
    cls = CP.CP_RCPSP_MZN if how.startswith('single') else CP.CP_MRCPSP_MZN
    solver = cls(model, cp_solver_name=SOLVER[name])
    args = {'partial_solution': partial(p)}
    if 'typed' in how:
        args['output_type'] = True
    every = 'last' not in how
    if not every and opt is None:
        return
    if 'init' in how:
        solver.init_model(**args)
        rs = solver.solve(parameters_cp=cp(every))
    else:
        rs = solver.solve(parameters_cp=cp(every), **args)
    check(rs, inst, model, opt, p, at, rec, decreasing=every, single=not every)


def modes(rec, c):
    """modes which satisfy the resources whatever the dates: all of them, or some"""
    spec, p, order = c
    edges, durs, needs, res, nr, more, H = spec
    inst, model = setting(spec)
    if order:
        for t in model.mode_details:
            model.mode_details[t] = {m: model.mode_details[t][m] for m in sorted(model.mode_details[t], reverse=True)}
    inst = long_calendar(inst, model)
    top = {r: q if isinstance(q, int) else max(q) for r, q in inst['res'].items()}
    want = set()
    for m in all_modes(inst):
        if all(P.total(inst, m, r) <= top[r] for r in inst['nr']) and all(inst['modes'][t][k][r] <= top[r] for t, k in m.items() for r in top) and holds({'task_mode': (p or {}).get('task_mode', {})}, m, inst, {t: 0 for t in m}):
            want.add(tuple(m[t] for t in inst['tasks']))
    at = lambda: 'modes of %r, partial %r, reversed %s' % (spec, p, order)
    for every in (True, False):
        solver = CP.CP_MRCPSP_MZN_MODES(model, cp_solver_name=CPSolverName.CHUFFED)
        par = cp(True)
        par.all_solutions = every
        par.nr_solutions = 1
        solver.init_model(partial_solution=partial(p))
        got = [tuple(x) for x in solver.solve(parameters_cp=par)]
        expect_eq(len(got), len(set(got)), lambda: at() + ': solutions given twice')
        if every:
            expect_eq(set(got), want, lambda: at() + ': all the modes')
        else:
            expect(len(got) == min(1, len(want)) and set(got) <= want, lambda: '%s: modes %r, expected one of %r' % (at(), got, sorted(want)))
        rec.trans()
    rec.states += len(want)


def integer(rec, c):
    """integer programmes: among the schedules no longer than the one they start from"""
    spec, p, how = c
    inst, model = setting(spec)
    inst = long_calendar(inst, model)
    at = lambda: '%s of %r, partial %r' % (how, spec, p)
    multi = how.startswith('multi')
    solver = (LP.LP_MRCPSP if multi else LP.LP_RCPSP)(model, lp_solver=LP.LP_RCPSP_Solver.CBC)
    args = {'partial_solution': partial(p)}
    if 'slow' in how:  # the tasks one after the other
        t0, sc = 0, {}
        for t in topological(inst):
            d = max(m['duration'] for m in inst['modes'][t].values())
            sc[t] = {'start_time': t0, 'end_time': t0 + d}
            t0 += d
        args['start_solution'] = M.RCPSPSolution(problem=model, rcpsp_schedule=sc, rcpsp_modes=[max(inst['modes'][t], key=lambda m: inst['modes'][t][m]['duration']) for t in inst['tasks'][1:-1]], rcpsp_schedule_feasible=True)
    if 'dummy' in how:
        args['greedy_start'] = False
    if 'given' in how and 'slow' not in how:
        args['start_solution'] = M.RCPSPSolution(problem=model, rcpsp_permutation=list(range(len(spec[1])))[::-1], rcpsp_modes=[max(inst['modes'][t]) if 'last' in how else 1 for t in inst['tasks'][1:-1]])
    if 'lazy' not in how:
        solver.init_model(**args)
        rest = {}
    else:
        rest = args
        solver2 = type(solver)(model, lp_solver=LP.LP_RCPSP_Solver.CBC)
        solver2.init_model(**({'greedy_start': False, **args} if multi else args))
        solver.start_solution = solver2.start_solution
    st = solver.start_solution
    H = starts_of(st)[inst['tasks'][-1]] if st.rcpsp_schedule_feasible else total(inst, spec[-1])
    if 'given' in how:
        expect(st is args['start_solution'], lambda: at() + ': starts from another solution than the one given')
    if st.rcpsp_schedule_feasible:
        expect(P.feasible(inst, dict(zip(inst['tasks'], [1] + list(st.rcpsp_modes) + [1])), starts_of(st)), lambda: '%s: starts from %r' % (at(), st.rcpsp_schedule))
    opt = best(inst, H, p, rec)
    if opt is None:
        rec.outcome('none')
        return
    par = milp('one' not in how)
    rs = solver.solve(parameters_milp=par, **rest)
    check(rs, inst, model, opt, p, at, rec, single='one' in how)
    if p is None and st.rcpsp_schedule_feasible:
        expect(opt <= starts_of(st)[inst['tasks'][-1]], at)


def entry(rec, c):
    """solvers proposed for a problem solve it, through the common entry points"""
    spec, group = c
    inst, model = setting(spec)
    inst = long_calendar(inst, model)
    proposed = E.look_for_solver(model)
    listed = [s for s, ms in E.solvers_compatibility.items() if type(model) in ms]
    expect_eq(proposed, listed, lambda: 'solvers proposed for %r' % (spec,))
    opt = best(inst, total(inst, spec[-1]), None, rec)
    n = 0
    for s in proposed:
        key, kw = E.solvers_map[s]
        if key != group:
            continue
        n += 1
        kw = {k: v for k, v in kw.items()}
        if 'parameters_cp' in kw:
            kw['parameters_cp'] = cp(True)
        at = lambda: '%s of %r' % (s.__name__, spec)
        for rs in (E.solve(s, model, **kw), E.return_solver(s, model, **kw).solve(**kw)):
            if key in ('lp', 'cp'):
                check(rs, inst, model, opt, None, at, rec)
            else:
                sol, fit = rs.list_solution_fits[0]
                expect(P.feasible(inst, dict(zip(inst['tasks'], [1] + list(sol.rcpsp_modes) + [1])), starts_of(sol)) and fit == -starts_of(sol)[inst['tasks'][-1]], lambda: '%s: %r' % (at(), sol.rcpsp_schedule))
            rec.trans()
    expect(n, lambda: 'no solver of the group %s for %r' % (group, spec))
    rec.state()


def partials(n, T):
    """partial solutions over the tasks 2..n+1"""
    a, b, z = 2, 3, n + 1
    out = [None, {'start_times': {a: 1}}, {'start_times': {z: 2, 1: 0}}, {'partial_permutation': [z, a]}, {'list_partial_order': [[b, a], [1, b]]}, {'start_together': [(a, b)]}, {'start_at_end': [(b, a)]},
           {'start_at_end_plus_offset': [(a, b, 1)]}, {'start_after_nunit': [(b, a, 1)]}, {'start_times': {b: 0}, 'partial_permutation': [b, a]}, {'start_after_nunit': [(a, b, 2)], 'list_partial_order': [[a, b], [z, a]]}]
    if T:
        out += [{'task_mode': {a: 2}}, {'task_mode': {a: 1, b: 1}, 'start_times': {b: 1}}]
    return out


def weaker(p):
    """partial solutions which ask for less than p"""
    out = []
    for k, v in p.items():
        rest = {x: y for x, y in p.items() if x != k}
        if k == 'start_times':
            for t, u in v.items():
                other = {x: y for x, y in v.items() if x != t}
                out += [dict(rest, start_times=other, dates=[(t, op, u)]) for op in (operator.le, operator.ge)]
        elif k == 'partial_permutation':
            out += [dict(rest, **{k: v[:-1]}), dict(rest, **{k: v[1:]})]
        elif k == 'list_partial_order':
            out += [dict(rest, **{k: v[:i] + v[i + 1:]}) for i in range(len(v))] + [dict(rest, **{k: v[:i] + [w] + v[i + 1:]}) for i in range(len(v)) if len(v[i]) > 2 for w in (v[i][:-1], v[i][1:])]
        elif k == 'start_together':
            out += [dict(rest, start_after_nunit=[(a, b, 0)]) for a, b in v] + [dict(rest, start_after_nunit=[(b, a, 0)]) for a, b in v]
        elif k == 'start_at_end':
            out += [dict(rest, start_at_end_plus_offset=[(a, b, 0) for a, b in v]), dict(rest, before_end=v)]
        elif k in ('start_at_end_plus_offset', 'start_after_nunit'):
            out += [dict(rest, **{k: [(a, b, d - 1) for a, b, d in v]}), dict(rest, **{k: v[1:]}), dict(rest, **{k: v[:-1]})]
        elif k == 'task_mode':
            out += [dict(rest, **{k: {x: y for x, y in v.items() if x != t}}) for t in v]
    return out


def telling(p, pool, ck):
    """for each way to ask for less than p, the first instance whose optimum then differs"""
    found, left = [], weaker(p)
    for spec in pool:
        if not left:
            break
        inst, model = setting(spec)
        H = total(inst, spec[-1])
        o = best(inst, H, p, ck)
        if o is None:
            continue
        hit = [w for w in left if best(inst, H, w, ck) != o]
        if hit:
            found.append(spec)
            left = [w for w in left if w not in hit]
    return found, left


def build(ck):
    D3 = P.dags(3)
    R = {'R1': 2, 'R2': 2}
    s3 = [(e, d, tuple(NEEDS[i] for i in k), R, (), None, 12) for e in D3 for d in ((1, 2, 1), (2, 1, 2)) for k in ((0, 1, 2), (1, 0, 0), (0, 0, 0), (1, 2, 1))]
    s2 = [(e, d, tuple(NEEDS[i] for i in k), R, (), None, 12) for e in P.dags(2) for d in ((1, 2), (2, 1)) for k in ((0, 1), (0, 0), (0, 2), (2, 1))]
    one = [((), (d,), (NEEDS[0],), R, (), None, 12) for d in (1, 3)]
    too = [((), (1, 2), (NEEDS[0], {'R1': 3, 'R2': 0}), R, (), None, 12)]
    MORE = ({0: {2: (1, {'R1': 2, 'N1': 1})}, 1: {2: (1, {'R1': 1, 'N1': 2}), 3: (2, {'R1': 2, 'N1': 0})}}, {0: {2: (3, {'R1': 1, 'N1': 0})}, 1: {3: (3, {'R1': 1, 'N1': 0})}})
    multi = [(e, (2, 1, 2)[:n], ({'R1': 1, 'N1': 1}, {'R1': 2, 'N1': 1}, {'R1': 1, 'N1': 1})[:n], {'R1': 2, 'N1': cap}, ('N1',), more, 14)
             for n in (2, 3) for e in (P.dags(2) if n == 2 else D3[::2]) for more in MORE for cap in (0, 1, 2, 4)]
    # two non-renewable resources: each has its own limit
    two = [(e, (2, 1, 2)[:n], ({'R1': 1, 'N1': 1, 'N2': 0}, {'R1': 2, 'N1': 0, 'N2': 1}, {'R1': 1, 'N1': 1, 'N2': 1})[:n], {'R1': q, 'N1': c1, 'N2': c2}, ('N1', 'N2'),
            {i: {2: (3, {'R1': 1, 'N1': 0, 'N2': i}), 3: (1, {'R1': 1, 'N1': 1, 'N2': 1})} for i in range(2)}, 9)
           for n in (2, 3) for e in (P.dags(2) if n == 2 else D3[::6]) for c1 in (0, 1, 2) for c2 in (0, 1, 3) for q in (2, [2, 1, 2, 0, 2, 2, 2, 2, 2, 2])]
    cals = [(e, d[:n], ({'R1': 1, 'R2': 0}, {'R1': 2, 'R2': 1}, {'R1': 1, 'R2': 2})[:n], {'R1': q1, 'R2': q2}, (), more, 9)
            for n in (2, 3) for e in (P.dags(2) if n == 2 else D3[::3]) for q1 in ([2, 2, 1, 0, 2], [0, 0, 2], [1, 2, 0, 0, 1, 2]) for q2 in ([2], [0, 2, 1, 2]) for d in ((1, 2, 1), (2, 3, 1))
            for more in (None, {0: {2: (1, {'R1': 2, 'R2': 1})}})]
    P3, P3m = partials(3, False), partials(3, True)
    hows = ('single', 'single init', 'single typed', 'single last', 'single last typed')
    jobs = [(s, None, 'CHUFFED', 'single') for s in s3 + s2 + one + too] + [(s3[i % len(s3)], p, 'CHUFFED', hows[j % 5]) for j in range(3) for i, p in zip(range(5 * j, 1000, 7), P3)]
    ck.run(jobs, constraint, 'one mode, constraints', chunk=4, timeout=300)
    hows = ('multi', 'multi init', 'multi typed', 'multi last', 'multi last typed')
    m3 = [m for m in multi if len(m[1]) == 3 and m[3]['N1'] > 1 and 2 in m[5][0]]
    jobs = [(s, None, 'CHUFFED', 'multi') for s in multi + s2[::3] + s3[::5]] + [(m3[i % len(m3)], p, 'CHUFFED', hows[j % 5]) for j in range(5) for i, p in zip(range(5 * j, 1000, 3), P3m)]
    ck.run(jobs, constraint, 'several modes, constraints', chunk=4, timeout=300)
    ck.run([(s, None, 'CHUFFED', 'multi') for s in two], constraint, 'two limits, constraints', chunk=4, timeout=300)
    ck.run([(s, None, 'CHUFFED', 'multi') for s in cals] + [(s, p, 'CHUFFED', 'multi') for s, p in zip(cals[-30::2], P3)], constraint, 'calendars, constraints', chunk=4, timeout=300)
    ck.run([(s, p, o) for i, s in enumerate(multi + cals[::4]) for p in (None, P3m[-2 + i % 2] if 2 in (s[5] or {}).get(0, {}) else None) for o in (False, True)][::1 if THOROUGH else 2], modes, 'modes', chunk=4, timeout=300)
    hows = ('single', 'single dummy', 'single given', 'single lazy', 'single one')
    jobs = [(s, None, h) for s in s2 + one for h in hows] + [(s, None, hows[i % 5]) for i, s in enumerate(s3)] + [(s3[i % len(s3)], p, hows[j]) for j in range(5) for i, p in zip(range(j, 1000, 7), P3)]
    ck.run(jobs, integer, 'one mode, integers', chunk=4, timeout=300)
    hows = ('multi', 'multi dummy', 'multi given', 'multi lazy', 'multi one', 'multi given last')
    Pm = [p for p in P3m if p is None or not set(p) & {'task_mode', 'start_together', 'start_at_end', 'start_at_end_plus_offset', 'start_after_nunit'}]
    jobs = [(s, None, hows[i % 6]) for i, s in enumerate([m for m in multi if possible(m)] + s2[::3] + cals[::2])] + [(m3[i % len(m3)], p, hows[j]) for j in range(6) for i, p in zip(range(j, 1000, 7), Pm)]
    # the first modes need too much: the others, one after the other
    slow = [(e, (1, 1), ({'R1': 2, 'N1': 1},) * 2, {'R1': 2, 'N1': 0}, ('N1',), {i: {2: (d, {'R1': 2, 'N1': 0})} for i in (0, 1)}, 14) for e in P.dags(2) for d in (2, 3)]
    wait = [(e, (1, 2), ({'R1': 1, 'R2': 0}, {'R1': 1, 'R2': 1}), {'R1': q, 'R2': [1]}, (), None, 9) for e in P.dags(2) for q in ([0, 0, 0, 1], [1, 0, 0, 1, 1, 0, 1, 1, 0], [1, 0, 0, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 0, 0, 0, 1])]
    jobs += [(s, None, h) for s in slow + wait for h in ('multi', 'multi dummy', 'multi lazy') if s not in wait or best(long_calendar(*setting(s)), 9, None, ck) is not None]
    ck.run(jobs, integer, 'several modes, integers', chunk=2, timeout=300)
    # where the constraints make a difference: partial solutions, and instances whose optimum tells them from weaker ones
    pool = [(e, d, tuple(NEEDS[i] for i in k), R, (), None, 12) for d in ((1, 2, 1), (2, 1, 2), (2, 1, 3), (1, 2, 3)) for e in D3 for k in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1), (0, 1, 2))]
    pool4 = [(e, d, tuple(NEEDS[i] for i in k), R, (), None, 12) for d in ((2, 1, 1, 3), (1, 2, 3, 1)) for e in P.dags(4)[::7] for k in ((0, 0, 0, 0), (1, 0, 1, 0), (1, 1, 0, 0))]
    tell = []
    for p in [p for p in P3 if p] + [{'partial_permutation': [4, 2, 3]}, {'list_partial_order': [[4, 2, 3], [3, 2]]}, {'list_partial_order': [[4, 3], [3, 2]]}, {'start_at_end': [(2, 3)]}, {'start_at_end': [(3, 2), (2, 4)]},
                                     {'start_together': [(2, 4), (3, 4)]}, {'start_at_end_plus_offset': [(2, 3, 2), (4, 2, 0)]}, {'start_after_nunit': [(2, 3, 2), (4, 2, 1)]}, {'start_at_end_plus_offset': [(3, 2, 0)]}]:
        found, _ = telling(p, pool + pool4, ck)
        tell += [(spec, p) for spec in found]
    ck.run([(spec, p, 'CHUFFED', how) for spec, p in tell for how in ('single', 'multi')], constraint, 'telling partial solutions, constraints', chunk=2, timeout=300)
    ck.run([(spec, p, how + ' given slow') for spec, p in tell for how in ('single', 'multi') if how == 'single' or p in Pm], integer, 'telling partial solutions, integers', chunk=2, timeout=300)
    few = s3[::9] + s2[::7] + [m for m in multi if m[3]['N1'] > 1][::5] + cals[::17]
    ck.run([(s, g) for s in few for g in ('cp', 'lp', 'greedy')], entry, 'entry points', chunk=1, timeout=300)
