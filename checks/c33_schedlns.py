"""C33: neighbourhoods, initial solutions and large neighbourhood searches of projects, single-skill and multi-skill."""
import itertools
import math
from checks import mipstand  # noqa
from checks import nogurobi  # noqa
from checks import rcpspref as P
from checks.c26_combsolvers import cp, milp
from checks.c27_rcpspheur import M, build_model, data_free, dur, starts_of, D  # noqa
from checks import c28_rcpspexact as S1
from checks import c29_multiskill as S2
from checks import c30_multiexact as S3
from checks.neigh import Child, around, every, programme, statements, text
from mc import nondet
from mc.core import expect, expect_eq, THOROUGH
with data_free():
    from skdecide.builders.discrete_optimization.rcpsp.solver import cp_solvers as CP, rcpsp_lp_solver as LP, rcpsp_lp_lns_solver as NL, rcpsp_cp_lns_solver as NC, rcpsp_pile as PI
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers import cp_solvers as MCP, lp_model as MLP, ms_rcpsp_lp_lns_solver as ML, ms_rcpsp_cp_lns_solver as MC
    from skdecide.builders.discrete_optimization.generic_tools import lns_mip as LM, lns_cp as LC
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, build_evaluate_function_aggregated
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage

FRACTIONS = (0., 0.3, 0.5, 0.8, 1.)
DELTAS = ((2, 2), (0, 3), (4, 0), (0, 0), (100, 100))


def params(m):
    return get_default_objective_setup(problem=m)


def agg(m):
    return build_evaluate_function_aggregated(problem=m, params_objective_function=params(m))[0]


def solution(m, inst, modes, s):
    return M.RCPSPSolution(problem=m, rcpsp_schedule={t: {'start_time': s[t], 'end_time': s[t] + dur(inst, modes, t)} for t in inst['tasks']},
                           rcpsp_modes=[modes[t] for t in inst['tasks'][1:-1]], rcpsp_schedule_feasible=True)


def store_of(m, sols):
    """the first one is the best one"""
    f = agg(m)
    st = ResultStorage(list_solution_fits=[(s, f(s)) for s in sols[1:] + sols[:1]], mode_optim=params(m).sense_function)
    expect(st.get_best_solution_fit()[0] is sols[0], 'harness: best solution')
    return st


def finish(inst, modes, dates):
    s = dict(zip(inst['tasks'][1:-1], dates))
    s[1] = 0
    s[inst['tasks'][-1]] = max(s[t] + dur(inst, modes, t) for t in s)
    return s


def ones(inst):
    return {t: 1 for t in inst['tasks']}


def subsets(tasks, f):
    return list(itertools.combinations(tasks, int(f * len(tasks))))


def boxes(inst, modes, s, f, lo, hi, margin=5, part=()):
    """for each choice of tasks: {task: (first, last date)}"""
    mk = max(s[t] + dur(inst, modes, t) for t in s)
    return [{t: (max(s[t] - lo, 0), min(s[t] + hi, mk)) for t in sub if s[t] + dur(inst, modes, t) < mk - margin and t not in part} for sub in subsets(inst['tasks'], f)]


def within(box, starts):
    return all(a <= starts[t] <= b for t, (a, b) in box.items())


def values(s, mk, lo, hi, more=()):
    return [sorted({0, mk, mk + 1, v - lo - 1, v - lo, v + hi, v + hi + 1, v - 1, v + 1} & set(range(mk + 2)) | set(more)) for v in s]


# ------------------------------------------------------------------------------------------------ integer programmes


def lp_single(rec, c):
    spec, dates, longest, kind, f, (lo, hi) = c
    inst, m = S1.setting(spec)
    one = ones(inst)
    T = inst['tasks']
    s = finish(inst, one, dates)
    far = finish(inst, one, longest)
    solver = LP.LP_RCPSP(m)
    solver.init_model(start_solution=solution(m, inst, one, far))
    store = store_of(m, [solution(m, inst, one, s), solution(m, inst, one, far)] if far[T[-1]] > s[T[-1]] else [solution(m, inst, one, s)])
    H = far[T[-1]] + 1
    cur = tuple(s[t] for t in T)
    pts = around(cur, [[v for v in vs if v < H] for vs in values(cur, s[T[-1]], lo, hi)])
    point = lambda p: {solver.x[j][u].idx: int(p[j] == u) for j in range(len(T)) for u in range(H)}
    if kind == 'fix':
        refs = {frozenset(p for p in pts if all(p[T.index(t)] == s[t] for t in sub)) for sub in subsets(T, f)}
        build = lambda: NL.ConstraintHandlerFixStartTime(m, fraction_fix_start_time=f)
    else:
        refs = {frozenset(p for p in pts if within(b, dict(zip(T, p)))) for b in boxes(inst, one, s, f, lo, hi)}
        build = lambda: NL.ConstraintHandlerStartTimeInterval(m, fraction_to_fix=f, minus_delta=lo, plus_delta=hi)
    programme(rec, solver, build, store, point, pts, cur, refs, '%s of %r around %r (%r, %r, %r)' % (kind, spec, s, f, lo, hi), subsets=True)


def lp_multi(rec, c):
    spec, (modes, dates), (modes0, dates0), f, (lo, hi) = c
    inst, m = S1.setting(spec)
    T = inst['tasks']
    ms = dict(zip(T, (1,) + modes + (1,)))
    m0 = dict(zip(T, (1,) + modes0 + (1,)))
    s, s0 = finish(inst, ms, dates), finish(inst, m0, dates0)
    solver = LP.LP_MRCPSP(m)
    solver.init_model(start_solution=solution(m, inst, m0, s0))
    H = max(k[2] for k in solver.x) + 1
    store = store_of(m, [solution(m, inst, ms, s)])
    if s0[T[-1]] < s[T[-1]]:
        ms, s = m0, s0  # the solution the programme was built on is better
    cur = tuple((ms[t], s[t]) for t in T)
    vals = values([s[t] for t in T], s[T[-1]], lo, hi)
    vals = [[(md, u) for md in inst['modes'][t] for u in sorted(set(vs) | {s[t]}) if u < H and (md, u) != (ms[t], s[t])] for t, vs in zip(T, vals)]
    pts = around(cur, vals)

    def point(p):
        q = dict(zip(T, p))
        out = {v.idx: int(q[t] == (md, u)) for (t, md, u), v in solver.x.items()}
        out.update({solver.durations[t].idx: inst['modes'][t][q[t][0]]['duration'] for t in T})
        return out
    refs = {frozenset(p for p in pts if within(b, {t: x[1] for t, x in zip(T, p)})) for b in boxes(inst, ms, s, f, lo, hi)}
    programme(rec, solver, lambda: NL.ConstraintHandlerStartTimeIntervalMRCPSP(m, fraction_to_fix=f, minus_delta=lo, plus_delta=hi), store, point, pts, cur, refs,
              'interval of %r around %r (%r, %r, %r)' % (spec, cur, f, lo, hi), subsets=True)


# ------------------------------------------------------------------------------------------------ constraint programmes


def cp_single(rec, c):
    spec, dates, other, kind, f, (lo, hi), margin, cuts = c
    inst, m = S1.setting(spec)
    one = ones(inst)
    T = inst['tasks']
    s, o = finish(inst, one, dates), finish(inst, one, other)
    sols = [solution(m, inst, one, s)] + ([solution(m, inst, one, o)] if o[T[-1]] > s[T[-1]] else [])
    store = store_of(m, sols)
    solver = (CP.CP_RCPSP_MZN if kind == 'single' else CP.CP_MRCPSP_MZN)(m, cp_solver_name=CPSolverName.CHUFFED)
    name = 's' if kind == 'single' else 'start'
    mk = s[T[-1]]
    cur = tuple(s[t] for t in T)
    pts = around(cur, values(cur, mk, lo, hi, more=(mk + 50, mk + 51)))
    cap = lambda p: max(p) <= mk + 50
    what = lambda k: '%s programme of %r around %r (%r, %r, %r, %r, part %r of %r)' % (kind, spec, s, f, lo, hi, margin, k, cuts)
    if not cuts:
        refs = {frozenset(p for p in pts if cap(p) and within(b, dict(zip(T, p)))) for b in boxes(inst, one, s, f, lo, hi, margin)}
        text(rec, solver, lambda: NC.ConstraintHandlerStartTimeInterval_CP(m, fraction_to_fix=f, minus_delta=lo, plus_delta=hi, delta_time_from_makepan_to_not_fix=margin),
             store, pts, [(name, '1..%d' % len(T), len(T))], cur, refs, what(None), subsets=True)
        return
    for k in range(cuts + 2):
        part = [t for t in T if mk / cuts * (k % cuts) <= s[t] <= mk / cuts * (k % cuts + 1)]
        refs = {frozenset(p for p in pts if cap(p) and within(b, dict(zip(T, p)))) for b in boxes(inst, one, s, f, lo, hi, margin, part)}

        def build():
            h = NC.ConstraintHandlerByPart_CP(m, fraction_to_fix=f, nb_cut_part=cuts, minus_delta=lo, plus_delta=hi, delta_time_from_makepan_to_not_fix=margin)
            act = nondet._active  # earlier parts: any choice
            nondet._active = nondet.Chooser([])
            try:
                for _ in range(k):
                    h.adding_constraint_from_results_store(cp_solver=solver, child_instance=Child(), result_storage=store)
            finally:
                nondet._active = act
            return h
        text(rec, solver, build, store, pts, [(name, '1..%d' % len(T), len(T))], cur, refs, what(k), subsets=True)


def mixed(rec, c):
    """which parameters the mixed handlers use: histories of improvements x choices, with their probabilities"""
    multi, n, history = c
    # one task of the project is fixed with fraction 1, the others being the last ones
    if multi:
        inst = S2.project((3, 30), [(2, 3)], [{'a': 1}, {'a': 1}], {'e': ({'a': 1}, [])}, H=80)
        m = S2.model(inst)
        mk_sol = lambda d: S2.X.MS_RCPSPSolution(problem=m, modes={t: 1 for t in inst['tasks']}, schedule=S2.schedule_of(inst, {t: 1 for t in inst['tasks']}, {1: 0, 2: 5, 3: 40 + d, 4: 70 + d}),
                                                 employee_usage={2: {'e': {'a'}}, 3: {'e': {'a'}}})
        mod, more = MC, {'fraction_task_to_fix_employee': 0.}
        solver = None
    else:
        inst, m = S1.setting(((), (3, 9), ({'R1': 1}, {'R1': 1}), {'R1': 1}, (), None, 40))
        mk_sol = lambda d: solution(m, inst, ones(inst), {1: 0, 2: 5, 3: 20 + d, 4: 29 + d})
        mod, more = NC, {}
        solver = CP.CP_MRCPSP_MZN(m, cp_solver_name=CPSolverName.CHUFFED)
    pars = [mod.Params(fraction_to_fix=1., minus_delta=i, plus_delta=i, **more) for i in range(n)]
    proba = [float(i + 1) for i in range(n)]

    def texts_of(handler, store):
        ch = Child()
        handler.adding_constraint_from_results_store(cp_solver=solver, child_instance=ch, result_storage=store)
        return tuple(sorted(set(statements(ch.text))))
    stores = []
    d = len(history) + 1
    for better in (False,) + history:
        d -= better
        stores.append(store_of(m, [mk_sol(d)]))
    direct = [[None] * n for _ in stores]
    for i, st in enumerate(stores):
        for j, q in enumerate(pars):
            got = set(every(lambda: texts_of(mod.ConstraintHandlerStartTimeInterval_CP(m, **vars(q)), st), subsets=True, floats=(0.5,)))
            expect_eq(len(got), 1, 'harness: one neighbourhood per parameters')
            direct[i][j] = got.pop()
        expect_eq(len(set(direct[i])), n, 'harness: neighbourhoods differ')
    for x in (0.5, 0.97):
        def once():
            h = mod.ConstraintHandlerMix(problem=m, list_params=list(pars), list_proba=list(proba))
            return tuple(direct[i].index(texts_of(h, st)) for i, st in enumerate(stores))
        got = {}
        nondet.unordered = True
        try:
            for (kind, r), _, pr in nondet.explore(once, floats=(x,)):
                if kind == 'exc':
                    raise r
                got[r] = got.get(r, 0) + pr
        finally:
            nondet.unordered = False
        want = {}

        def go(i, path, pr, prob, used, improved):
            if i == len(stores):
                want[path] = pr
                return
            prob = list(prob)
            if i:
                last = path[-1]
                prob[last] *= 1.05 if history[i - 1] else 0.95
                improved = dict(improved)
                improved[last] += history[i - 1]
                prob = [q / sum(prob) for q in prob]
            if x <= 0.95:
                nxt = {j: prob[j] / sum(prob) for j in range(n)}
            else:
                rate = {j: improved[j] / max(used[j], 1) for j in range(n)}
                top = [j for j in rate if rate[j] == max(rate.values())]
                nxt = {j: 1 / len(top) for j in top}
            for j in nxt:
                go(i + 1, path + (j,), pr * nxt[j], prob, dict(used, **{}) | {j: used[j] + 1}, improved)
        go(0, (), 1., proba, {j: 0 for j in range(n)}, {j: 0 for j in range(n)})
        at = lambda: 'mixed neighbourhoods (%s), improvements %r, draw %r' % ('multi-skill' if multi else 'single-skill', history, x)
        expect_eq(set(got), set(want), lambda: at() + ': parameters used')
        for p in want:
            expect(abs(got[p] - want[p]) < 1e-6, lambda: '%s: parameters %r used with probability %r instead of %r' % (at(), p, got[p], want[p]))
            rec.trans()
        rec.states += len(want)


def options(rec, c):
    """neighbourhoods proposed by name: every set of parameters is usable and used"""
    multi, name = c
    mod = MC if multi else NC
    m = object()
    h = mod.build_neighbor_operator(mod.OptionNeighbor[name], m)
    expect(isinstance(h, mod.ConstraintHandlerMix) and h.problem is m, 'handler')
    expect_eq(len(h.list_params), len(h.list_proba), 'parameters')
    expect(all(abs(p - 1 / len(h.list_params)) < 1e-9 for p in h.list_proba), 'equal probabilities')
    for q in h.list_params:
        expect(0 <= q.fraction_to_fix <= 1 and q.minus_delta >= 0 and q.plus_delta >= 0 and 0 <= getattr(q, 'fraction_task_to_fix_employee', 0) <= 1, lambda: 'parameters %r' % (vars(q),))
    if name == 'DEBUG':
        expect_eq([(q.fraction_to_fix, q.minus_delta, q.plus_delta) for q in h.list_params], [(1., 0, 0)], 'everything is fixed')
    rec.state()


# ------------------------------------------------------------------------------------------------ multi-skill


def ms_solution(m, inst, s, use):
    one = ones(inst)
    return S2.X.MS_RCPSPSolution(problem=m, modes=dict(one), schedule=S2.schedule_of(inst, one, s), employee_usage=use)


def ms_finish(inst, dates):
    s = dict(zip(inst['tasks'][1:-1], dates))
    s[1] = 0
    s[inst['tasks'][-1]] = max(s[t] + S2.dur(inst, ones(inst), t) for t in s)
    return s


def ms_lp(rec, c):
    inst, dates, kind, f, (lo, hi) = c
    m = S2.model(inst)
    one = ones(inst)
    T = inst['tasks']
    s = ms_finish(inst, dates)
    solver = MLP.LP_Solver_MRSCPSP(m, lp_solver=MLP.MilpSolverName.CBC)
    solver.init_model()
    use = {t: {e: set(S2.needs(inst, one, t)) & set(inst['emp'][e][0]) for e in list(inst['emp'])[:1]} for t in T[1:-1]}
    store = store_of(m, [ms_solution(m, inst, s, use)])
    cur = tuple(s[t] for t in T)
    pts = around(cur, values(cur, s[T[-1]], lo, hi))

    def point(p):
        out = {solver.start_times_task[t].idx: v for t, v in zip(T, p)}
        out.update({v.idx: int(k == 1) for t in T for k, v in solver.modes[t].items()})
        return out
    if kind == 'fix':
        refs = {frozenset(p for p in pts if all(p[T.index(t)] == s[t] for t in sub)) for sub in subsets(T, f)}
        build = lambda: ML.ConstraintHandlerFixStartTime(m, fraction_fix_start_time=f)
    else:
        refs = {frozenset(p for p in pts if within(b, dict(zip(T, p)))) for b in boxes(inst, one, s, f, lo, hi)}
        build = lambda: ML.ConstraintHandlerStartTimeIntervalMRCPSP(m, fraction_to_fix=f, minus_delta=lo, plus_delta=hi)
    programme(rec, solver, build, store, point, pts, cur, refs, '%s of %r around %r (%r, %r, %r)' % (kind, inst, s, f, lo, hi), subsets=True)


def ms_cp(rec, c):
    """the current solution is the last best one, the best one, one of the best or any, by the number drawn"""
    inst, sols, f, (lo, hi), fe, x = c
    m = S2.model(inst)
    one = ones(inst)
    T = inst['tasks']
    E = sorted(inst['emp'])
    full = [(ms_finish(inst, d), u) for d, u in sols]
    obj = [ms_solution(m, inst, s, {t: {e: set(k) for e, k in v.items()} for t, v in u.items()}) for s, u in full]
    F = agg(m)
    store = ResultStorage(list_solution_fits=[(o, F(o)) for o in obj], mode_optim=params(m).sense_function)
    top = max(F(o) for o in obj)
    bests = [i for i, o in enumerate(obj) if F(o) == top]
    if x <= 0.2:
        sources = [[i for i, (o, _) in enumerate(store.list_solution_fits) if o is store.get_last_best_solution()[0]][0]]
    elif x <= 0.4:
        sources = [[i for i, o in enumerate(obj) if o is store.get_best_solution_fit()[0]][0]]
    else:
        sources = bests if x <= 0.99 else [i for i in range(len(obj)) if i not in bests] or bests
    unit = lambda u: tuple(int(bool(u.get(t, {}).get(e))) for e in E for t in T)
    pts, refs = set(), set()
    for s, u in full:
        cs, cu = tuple(s[t] for t in T), unit(u)
        mk = s[T[-1]]
        for p in around(cs, values(cs, mk, lo, hi), pairs=len(T) < 5):
            pts.add(p + cu)
        for p in around(cu, [(1 - b,) for b in cu]):
            pts.add(cs + p)
        for p in around(cs, values(cs, mk, lo, hi), pairs=False):
            pts.update(p + q for q in around(cu, [(1 - b,) for b in cu], pairs=False))
    pts = sorted(pts)
    n = len(T)
    for i in sources:
        s, u = full[i]
        cu = unit(u)
        for b in boxes(inst, one, s, f, lo, hi, 20):
            for sub in subsets(T, fe):
                keep = [n + k * n + T.index(t) for k in range(len(E)) for t in sub]
                refs.add(frozenset(p for p in pts if p[n - 1] <= s[T[-1]] and within(b, dict(zip(T, p))) and all(p[k] == cu[k - n] for k in keep)))
    solver = MCP.CP_MS_MRCPSP_MZN(m, cp_solver_name=CPSolverName.CHUFFED)
    text(rec, solver, lambda: MC.ConstraintHandlerStartTimeInterval_CP(m, fraction_to_fix=f, minus_delta=lo, plus_delta=hi, fraction_task_to_fix_employee=fe), store, pts,
         [('start', '1..%d' % n, n), ('unit_used', '1..%d,1..%d' % (len(E), n), n * len(E))], None, refs, 'multi-skill neighbourhoods of %r (%r, %r, %r, %r, draw %r)' % (full, f, lo, hi, fe, x), subsets=True, floats=(x,))


# ------------------------------------------------------------------------------------------------ initial solutions and searches


def dated(st):
    return tuple((tuple(sorted(starts_of(s).items())), tuple(s.rcpsp_modes), f) for s, f in st.list_solution_fits)


def initial(rec, c):
    spec, method = c
    inst, m = S1.setting(spec)
    meth = NL.InitialMethodRCPSP[method]
    for p in (None, params(m)):
        got = every(lambda: NL.InitialSolutionRCPSP(m, params_objective_function=p, initial_method=meth).get_starting_solution())
        if method == 'DUMMY':
            dum = m.get_dummy_solution()
            for st in got:
                expect_eq([(starts_of(s), list(s.rcpsp_modes), f) for s, f in st.list_solution_fits], [(starts_of(dum), list(dum.rcpsp_modes), agg(m)(dum))], 'dummy solution')
        elif method == 'CP':
            opt = S1.best(S1.long_calendar(inst, m), S1.total(inst, spec[-1]), None, rec)
            for st in got:
                S1.check(st, S1.long_calendar(inst, m), m, opt, None, lambda: 'initial solution of %r' % (spec,), rec)
        else:
            cls = PI.PileSolverRCPSP if method == 'PILE' else PI.PileSolverRCPSP_Calendar
            want = every(lambda: cls(m).solve(greedy_choice=PI.GreedyChoice.MOST_SUCCESSORS))
            expect_eq({dated(s) for s in got}, {dated(s) for s in want}, lambda: 'initial solutions of %r' % (spec,))
        rec.state()


def ms_initial(rec, c):
    inst, method = c
    m = S2.model(inst, variant=True)
    meth = NL.InitialMethodRCPSP[method]
    rep = m.build_multimode_rcpsp_calendar_representative()
    key = lambda sols: tuple((tuple(sorted(s.items())), tuple(sorted((t, tuple(sorted((e, tuple(sorted(k))) for e, k in v.items()))) for t, v in u.items() if v)), f) for s, u, f in sols)
    emp = list(inst['emp'])
    got = every(lambda: ML.InitialSolutionMS_RCPSP(m, initial_method=meth).get_starting_solution())
    base = every(lambda: NL.InitialSolutionRCPSP(rep, initial_method=meth).get_starting_solution())
    want = set()
    for st in base:
        out = []
        for s, _ in st.list_solution_fits:
            modes = dict(zip(inst['tasks'], [1] + list(s.rcpsp_modes) + [1]))
            prio = {t: emp for t in inst['tasks']}
            r = S2.sgs(inst, [t + 2 for t in s.rcpsp_permutation], modes, prio)
            if r is None:
                rec.outcome('does not fit')
                return
            out.append((r[0], r[1], -r[0][inst['tasks'][-1]]))
        want.add(key(out))
    seen = {key([({t: v['start_time'] for t, v in s.schedule.items()}, s.employee_usage, f) for s, f in st.list_solution_fits]) for st in got}
    expect_eq(seen, want, lambda: 'initial solutions of %r' % (inst,))
    rec.states += len(want)


def search(rec, c):
    """a search which starts from an initial solution: feasible, never worse, best one of all where every schedule is in the neighbourhoods"""
    spec, how, method, f, (lo, hi), iters = c
    inst, m = S1.setting(spec)
    ref = S1.long_calendar(inst, m)
    opt = S1.best(ref, S1.total(inst, spec[-1]), None, rec)
    T = inst['tasks']
    init = NL.InitialSolutionRCPSP(m, initial_method=NL.InitialMethodRCPSP[method], params_objective_function=params(m))
    at = lambda: 'search (%r) of %r' % (c[1:], spec)

    def once():
        if how == 'assembled lp':
            first = NL.InitialSolutionRCPSP(m, initial_method=NL.InitialMethodRCPSP.DUMMY).get_starting_solution()
            return first, NL.LNS_LP_RCPSP_SOLVER(m).solve(nb_iteration_lns=iters)
        if how.startswith('assembled'):
            first = None
            s = NC.LNS_CP_RCPSP_SOLVER(m, option_neighbor=NC.OptionNeighbor[how.split()[1]])
            return first, s.solve(nb_iteration_lns=iters, parameters_cp=cp())
        first = init.get_starting_solution()

        class Given:
            def get_starting_solution(self):
                return first
        start = first.get_best_solution()
        if how in ('fix', 'single'):
            s = LP.LP_RCPSP(m)
            s.init_model(start_solution=start)
            h = NL.ConstraintHandlerFixStartTime(m, f) if how == 'fix' else NL.ConstraintHandlerStartTimeInterval(m, f, lo, hi)
            return first, LM.LNS_MILP(m, s, Given(), h, params_objective_function=params(m)).solve_lns(parameters_milp=milp(), nb_iteration_lns=iters)
        if how == 'multi':
            s = LP.LP_MRCPSP(m)
            s.init_model(start_solution=start)
            return first, LM.LNS_MILP(m, s, Given(), NL.ConstraintHandlerStartTimeIntervalMRCPSP(m, f, lo, hi), params_objective_function=params(m)).solve_lns(parameters_milp=milp(), nb_iteration_lns=iters)
        s = (CP.CP_RCPSP_MZN if how == 'cp single' else CP.CP_MRCPSP_MZN)(m, cp_solver_name=CPSolverName.CHUFFED)
        s.init_model(output_type=True)
        h = NC.ConstraintHandlerByPart_CP(m, f, 2, lo, hi) if how == 'cp part' else NC.ConstraintHandlerStartTimeInterval_CP(m, f, lo, hi)
        return first, LC.LNS_CP(m, s, Given(), h, params_objective_function=params(m)).solve_lns(parameters_cp=cp(), nb_iteration_lns=iters)
    for first, st in every(once, subsets=True, floats=(0.5,)):
        for s, fit in st.list_solution_fits:
            modes = dict(zip(T, [1] + list(s.rcpsp_modes) + [1]))
            d = starts_of(s)
            expect(P.feasible(ref, modes, d), lambda: '%s: infeasible %r, modes %r' % (at(), d, modes))
            expect_eq(fit, -d[T[-1]], lambda: at() + ': fitness')
        got = -st.get_best_solution_fit()[1]
        if first is not None:
            for s, fit in first.list_solution_fits:
                expect(how.startswith('assembled') or any(s is o for o, _ in st.list_solution_fits), lambda: at() + ': the initial solutions are kept')
                expect(got <= -fit, lambda: '%s: %r, worse than the initial solution %r' % (at(), got, -fit))
            start = -first.get_best_solution_fit()[1]
        else:
            start = None
        if 'OM' in how or (how != 'fix' and (lo, hi) == (100, 100) or f * len(T) < 1 or start is not None and start <= 5 and how != 'fix'):
            expect_eq(got, opt, lambda: at() + ': every schedule is in the neighbourhood, makespan')
        rec.outcome(got - opt)
        rec.state()


def ms_search(rec, c):
    inst, how, opts, iters, skip = c
    m = S2.model(inst, variant=True)
    last = min([inst['H']] + [len(q) - 1 for q in inst['res'].values()] + [len(cal) - 1 for _, cal in inst['emp'].values()])
    at = lambda: 'multi-skill search (%r) of %r' % (c[1:], inst)
    T = inst['tasks']

    def once():
        if how == 'assembled':
            s = MC.LNS_CP_MS_RCPSP_SOLVER(m, option_neighbor=MC.OptionNeighbor[opts])
            return None, s.solve(parameters_cp=cp(), nb_iteration_lns=iters, skip_first_iteration=skip)
        first = ML.InitialSolutionMS_RCPSP(m, initial_method=NL.InitialMethodRCPSP.PILE_CALENDAR).get_starting_solution()

        class Given:
            def get_starting_solution(self):
                return first
        f, lo, hi, fe = opts
        if how == 'cp':
            s = MCP.CP_MS_MRCPSP_MZN(m, cp_solver_name=CPSolverName.CHUFFED)
            s.init_model(output_type=True, exact_skills_need=False)
            return first, LC.LNS_CP(m, s, Given(), MC.ConstraintHandlerStartTimeInterval_CP(m, f, lo, hi, fe), params_objective_function=params(m)).solve_lns(parameters_cp=cp(), nb_iteration_lns=iters, skip_first_iteration=skip)
        s = MLP.LP_Solver_MRSCPSP(m, lp_solver=MLP.MilpSolverName.CBC)
        s.init_model()
        h = ML.ConstraintHandlerFixStartTime(m, f) if how == 'lp fix' else ML.ConstraintHandlerStartTimeIntervalMRCPSP(m, f, lo, hi)
        return first, LM.LNS_MILP(m, s, Given(), h, params_objective_function=params(m)).solve_lns(parameters_milp=milp(), nb_iteration_lns=iters, skip_first_iteration=skip)
    rule = '' if how != 'assembled' else 'exact'
    opt = S3.best(inst, last, last, rule, None, rec)
    for first, st in every(once, subsets=True, floats=(0.3,)):
        for s, fit in st.list_solution_fits:
            d = S2.starts_of(s)
            expect(S2.valid(inst, dict(s.modes), d, s.employee_usage), lambda: '%s: not valid: %r, %r' % (at(), d, s.employee_usage))
            expect_eq(fit, -d[T[-1]], lambda: at() + ': fitness')
        got = -st.get_best_solution_fit()[1]
        if first is not None:
            for s, fit in first.list_solution_fits:
                expect(got <= -fit, lambda: '%s: %r, worse than the initial solution %r' % (at(), got, -fit))
        if how != 'assembled' and opts[0] == 0 and opts[3] == 0:
            expect_eq(got, opt, lambda: at() + ': every schedule is in the neighbourhood, makespan')
        elif skip and how == 'assembled':
            expect(got <= opt, lambda: '%s: first iteration without constraints: %r, expected %r' % (at(), got, opt))
        rec.outcome(got - opt)
        rec.state()


# ------------------------------------------------------------------------------------------------


def build(ck):
    R = {'R1': 2, 'R2': 2}
    N = ({'R1': 1, 'R2': 0}, {'R1': 1, 'R2': 1}, {'R1': 2, 'R2': 0})
    A = (((0, 1),), (4, 3, 6), N, R, (), None, 40)
    B = ((), (2, 9), N[:2], R, (), None, 40)
    C = (((0, 1), (0, 2)), (1, 5, 2), N, R, (), None, 40)
    DATES = {'A': ((0, 4, 7), (1, 6, 9), (12, 16, 0), (3, 9, 12)), 'B': ((0, 0), (5, 3), (10, 1), (0, 6)), 'C': ((0, 1, 6), (2, 9, 3), (4, 12, 8), (0, 3, 1))}
    FAR = {'A': (8, 12, 16), 'B': (20, 9), 'C': (5, 14, 9)}
    ABC = (('A', A), ('B', B), ('C', C))
    grid = [(f, d) for f in FRACTIONS for d in DELTAS]
    if not THOROUGH:
        grid = [(f, DELTAS[(i + j) % 5]) for i, f in enumerate(FRACTIONS) for j in range(2)]
    jobs = [(s, d, FAR[z], k, f, dl) for z, s in ABC for d in DATES[z] for f, dl in grid for k in ('fix', 'interval') if k == 'interval' or dl == grid[0][1] or f]
    ck.run(jobs, lp_single, 'integer programmes', chunk=4, timeout=300)
    X = (((0, 1),), (3, 7), ({'R1': 1}, {'R1': 2}), {'R1': 2}, (), {0: {2: (6, {'R1': 1})}, 1: {2: (2, {'R1': 2})}}, 40)
    cur = [((1, 1), (2, 6)), ((2, 1), (0, 8)), ((1, 2), (5, 14)), ((2, 2), (1, 13))]
    jobs = [(X, a, b, f, dl) for a in cur for b in cur for f, dl in grid]
    ck.run(jobs if THOROUGH else jobs[::2], lp_multi, 'integer programmes with modes', chunk=2, timeout=300)
    jobs = [(s, d, FAR[z], k, f, dl, mg, 0) for z, s in ABC for i, d in enumerate(DATES[z]) for j, (f, dl) in enumerate(grid) for k, mg in ((('single', 'several')[(i + j) % 2], (5, 0, 3, 8)[(i + j) // 2 % 4]),)]
    jobs += [(s, d, FAR[z], ('single', 'several')[i % 2], f, dl, mg, cuts) for z, s in ABC[:2] for i, d in enumerate(DATES[z][:3]) for f, dl, mg, cuts in ((1., (0, 0), 0, 3), (0.8, (2, 1), 2, 2), (1., (1, 3), 5, 10))]
    ck.run(jobs, cp_single, 'constraint programmes', chunk=2, timeout=300)
    hist = [h for n in (1, 2, 3) for h in itertools.product((False, True), repeat=n)]
    ck.run([(multi, n, h) for multi in (False, True) for n in (2, 3) for h in hist], mixed, 'mixed neighbourhoods', chunk=1, timeout=300)
    ck.run([(multi, o.name) for multi, mod in ((False, NC), (True, MC)) for o in mod.OptionNeighbor], options, 'named neighbourhoods', chunk=1, timeout=300)
    emp = {'w': ({'a': 1}, []), 'v': ({'a': 1, 'b': 1}, [])}
    M2 = S2.project((6, 18), [], [{'a': 1}, {'a': 1, 'b': 1}], emp, H=80)
    M3 = S2.project((4, 7, 18), [(2, 3)], [{'a': 2}, {'b': 1}, {'a': 1}], emp, H=80)
    MD = {'M2': ((0, 6), (9, 0), (3, 12)), 'M3': ((0, 4, 11), (2, 25, 6))}
    jobs = [(i, d, k, f, dl) for nm, i in (('M2', M2), ('M3', M3)) for d in MD[nm] for f, dl in grid for k in ('fix', 'interval')]
    jobs = (jobs if THOROUGH else jobs[::2]) + [(M3, MD['M3'][0], 'interval', f, dl) for f in (1., 0.5) for dl in ((0, 2), (2, 0), (0, 0))]
    ck.run(jobs, ms_lp, 'multi-skill integer programmes', chunk=1, timeout=300)
    U2 = ({2: {'w': 'a'}, 3: {'v': 'ab'}}, {2: {'v': 'a'}, 3: {'w': 'a', 'v': 'b'}}, {2: {'w': 'a', 'v': ''}, 3: {'v': 'ab'}})
    S = [((0, 40), U2[0]), ((35, 40), U2[1]), ((9, 42), U2[2])]
    S0 = [((30, 38), U2[1]), ((0, 38), U2[0]), ((3, 38), U2[2]), ((1, 55), U2[0])]
    jobs = [(M2, sols, f, dl, fe, x) for sols in (S, S0, S[:1]) for f, dl, fe in ((1., (2, 3), 0.), (0.5, (0, 3), 0.5), (0.8, (4, 0), 1.), (0., (1, 1), 0.75), (0.75, (100, 100), 0.3), (0.3, (0, 0), 0.8)) for x in (0.1, 0.2, 0.3, 0.4, 0.7, 0.99, 0.995)]
    ck.run(jobs if THOROUGH else jobs[::2], ms_cp, 'multi-skill constraint programmes', chunk=1, timeout=300)
    few = [A, B, C, (((0, 2),), (1, 2, 1), (N[0], N[1], N[0]), R, (), None, 12), ((), (2, 2, 1), (N[2], N[0], N[1]), {'R1': 2, 'R2': 1}, (), None, 12)]
    multi = [X, ((), (2, 1, 2), ({'R1': 1, 'N1': 1}, {'R1': 2, 'N1': 0}, {'R1': 1, 'N1': 1}), {'R1': 2, 'N1': 3}, ('N1',), {0: {2: (1, {'R1': 2, 'N1': 1})}}, 14)]
    cals = [(((0, 1),), (1, 2, 1), ({'R1': 1, 'R2': 0}, {'R1': 2, 'R2': 1}, {'R1': 1, 'R2': 2}), {'R1': [2, 2, 1, 0, 2, 2, 2, 2, 2], 'R2': [2] * 9}, (), None, 9)]
    jobs = [(s, me) for s in few + multi for me in ('DUMMY', 'PILE', 'PILE_CALENDAR', 'CP')] + [(s, me) for s in cals for me in ('DUMMY', 'PILE_CALENDAR', 'CP')]
    ck.run(jobs, initial, 'initial solutions', chunk=1, timeout=300)
    small = [S2.project((2, 3), [], [{'a': 1}, {'a': 1, 'b': 1}], emp, H=14), S2.project((1, 2, 2), [(2, 3)], [{'a': 1}, {'b': 1}, {'a': 1}], emp, H=14),
             S2.project((2, 1), [], [{'a': 1}, {'b': 1}], {'w': ({'a': 1}, [0, 1]), 'v': ({'b': 1, 'a': 1}, [2])}, H=12)]
    modal = S2.graph({2: {1: (1, {'a': 1, 'n': 2}), 2: (2, {'a': 1})}, 3: {1: (2, {'a': 1})}, 4: {1: (1, {'a': 1})}}, [(3, 4)], {'w': ({'a': 1}, [])}, res={'n': 1}, nr=['n'], H=14)
    ck.run([(i, me) for i in small + [M2, M3, modal] for me in ('DUMMY', 'PILE_CALENDAR', 'CP') if me != 'CP' or i in small], ms_initial, 'multi-skill initial solutions', chunk=1, timeout=300)
    jobs = [(s, how, me, f, dl, it) for s in few[3:] + [C] for how in ('fix', 'single', 'multi') for me in ('DUMMY', 'PILE') for f, dl, it in ((0.5, (1, 1), 1), (0.2, (2, 0), 2), (0.8, (100, 100), 1), (0.1, (0, 0), 2))]
    jobs += [(s, 'multi', 'DUMMY', f, dl, it) for s in multi + cals for f, dl, it in ((0.5, (1, 1), 1), (0.8, (100, 100), 1))]
    jobs += [(s, 'assembled lp', 'DUMMY', 0.6, (5, 5), it) for s in few[2:] + multi + cals for it in (1, 2)]
    jobs += [(s, how, me, f, dl, it) for s in few[3:] + [C] for how, me in (('cp single', 'DUMMY'), ('cp several', 'PILE'), ('cp part', 'DUMMY')) for f, dl, it in ((0.2, (1, 1), 1), (0.8, (100, 100), 1), (0.1, (0, 0), 2))]
    jobs += [(s, how, 'PILE', 0.9, (0, 0), it) for s in few[2:] + multi[1:] for how, it in (('assembled OM', 1), ('assembled DEBUG', 2))]
    ck.run(jobs, search, 'searches', chunk=1, timeout=300)
    jobs = [(i, how, o, it, False) for i in small for how in ('lp fix', 'lp interval', 'cp') for o, it in (((0., 1, 1, 0.), 1), ((0.5, 1, 1, 0.3), 1), ((0.3, 2, 0, 0.), 2)) if how != 'cp' or it == 1]
    jobs += [(i, 'assembled', o, it, skip) for i in small for o, it, skip in (('DEBUG', 1, True), ('DEBUG', 2, False), ('OM', 1, True))]
    ck.run(jobs, ms_search, 'multi-skill searches', chunk=1, timeout=300)
