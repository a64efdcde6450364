"""C34: iterative searches for projects with calendars: what counts as breaking the calendars, the constraints this adds, the schedules
rebuilt from it, and the loop which keeps everything."""
import contextlib
import itertools
from checks import mipstand  # noqa
from checks import nogurobi  # noqa
from checks import rcpspref as P
from checks.c26_combsolvers import cp
from checks.c27_rcpspheur import M, data_free, dur, starts_of, D  # noqa
from checks import c28_rcpspexact as S1
from checks import c29_multiskill as S2
from checks.c33_schedlns import agg, finish, ms_finish, params
from checks.c23_results import Sol, Prob
from checks.neigh import Child, evaluate, every, statements
from mc.core import expect, expect_eq, THOROUGH
with data_free():
    from skdecide.builders.discrete_optimization.rcpsp.solver import cp_solvers as CP, calendar_solver_iterative as CS
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers import cp_solvers as MCP, calendar_solver_iterative as CM
from skdecide.builders.discrete_optimization.generic_tools import do_problem as DO
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName, ParametersCP
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from minizinc import Status

MAX = DO.ModeOptim.MAXIMIZATION


# ------------------------------------------------------------------------------------------------ reference

def demand(inst, modes, t, r):
    return inst['modes'][t][modes[t]].get(r, 0)


def busy(inst, modes, s, t):
    return range(s[t], s[t] + inst['modes'][t][modes[t]]['duration'])


def breaks(inst, cal, modes, s):
    """[(resource, date)] where more is used than there is"""
    return [(r, u) for r in cal for u in range(len(cal[r])) if sum(demand(inst, modes, t, r) for t in s if u in busy(inst, modes, s, t)) > cal[r][u]]


def windows(inst, cal, modes, s, broken):
    """[(task, last date before, first date after)]: tasks which run while there is nothing of what they need"""
    out = []
    for r in cal:
        for t in s:
            if any(x == r and not cal[r][u] and demand(inst, modes, t, r) and u in busy(inst, modes, s, t) for x, u in broken):
                n = min(m.get(r, 0) if m['duration'] else 0 for m in inst['modes'][t].values())
                out.append((t, max([u for u in range(s[t] + 1) if cal[r][u] >= n], default=None), min([u for u in range(s[t], len(cal[r])) if cal[r][u] >= n], default=None)))
    return out


def in_window(x, lo, hi):
    return lo is None and hi is None or lo is not None and x <= lo or hi is not None and x >= hi


def every_point(inst, T, last):
    """(modes, starts) of all tasks, the last one at the end"""
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in T[1:-1]]):
        modes = dict(zip(T, (1,) + ms + (1,)))
        for ds in itertools.product(*[range(last + 1 - inst['modes'][t][modes[t]]['duration']) for t in T[1:-1]]):
            s = dict(zip(T[1:-1], ds), **{})
            s[T[0]] = 0
            s[T[-1]] = max([s[t] + inst['modes'][t][modes[t]]['duration'] for t in s])
            yield modes, {t: s[t] for t in T}


# ------------------------------------------------------------------------------------------------ constraints

class Other:
    """stands for the neighbourhood that the calendar constraints come with"""
    def __init__(self):
        self.calls = []

    def adding_constraint_from_results_store(self, cp_solver, child_instance, result_storage):
        self.calls.append((cp_solver, child_instance, list(result_storage.list_solution_fits), result_storage.mode_optim))
        return ['given']


def constraints(rec, c):
    multi, key, modes_, dates, flag, extra = c
    inst, m, cal = setting(multi, key)
    T = inst['tasks']
    modes = dict(zip(T, (1,) + modes_ + (1,)))
    s = finish(inst, modes, dates)
    n = len(T)
    at = lambda: '%s calendars %r: modes %r, dates %r (flag %r, %d more)' % ('multi-skill' if multi else 'single-skill', key, modes, s, flag, extra)
    build = (lambda md, st: ms_sol(m, inst, md, st)) if multi else (lambda md, st: sol(m, inst, md, st))
    x = build(modes, s)
    if flag is not None:
        x.satisfy = flag
    late = []
    for k in range(extra):     # worse ones: one which satisfies, one which does not
        far = {t: v + (k + 1 if t != T[0] else 0) for t, v in s.items()}
        y = build(modes, far)
        if k < 2:
            y.satisfy = k == 0
        late.append(y)
    sols = [x] + late
    value = lambda o: -float((o.schedule if multi else o.rcpsp_schedule)[T[-1]]['end_time'])
    store = ResultStorage(list_solution_fits=[(o, value(o)) for o in sols], mode_optim=MAX)
    if not multi:
        cls = CP.CP_RCPSP_MZN if key[-1] == 'one' else CP.CP_MRCPSP_MZN
        free = M.RCPSPModel(resources={r: max(q) for r, q in cal.items()}, non_renewable_resources=[], mode_details=m.mode_details, successors=m.successors, horizon=m.horizon)
        solver = cls(free, cp_solver_name=CPSolverName.CHUFFED)
        solver.init_model()
    else:
        solver = MCP.CP_MS_MRCPSP_MZN(m, cp_solver_name=CPSolverName.CHUFFED)
        solver.init_model(add_calendar_constraint_unit=False, exact_skills_need=False)
    mod = CM if multi else CS
    runs = []

    def once():
        other, ch = Other(), Child()
        h = mod.ConstraintHandlerAddCalendarConstraint(m, m, other)
        ret = h.adding_constraint_from_results_store(cp_solver=solver, child_instance=ch, result_storage=store)
        runs.append((other, ch))
        if flag:
            expect_eq(list(ret), ['given'], at)
            expect_eq(ch.text, [], lambda: at() + ': nothing is added')
            expect_eq(len(other.calls), 1, at)
            got = other.calls[0]
            expect(got[0] is solver and got[1] is ch and got[3] == MAX and got[2][0][0] is x and all(any(o is p for p in sols) for o, _ in got[2]), lambda: at() + ': given to the neighbourhood')
            return ()
        expect_eq(list(ret[:1]), ['req'], at)
        expect_eq(sorted(statements(ret[1:])), sorted(statements(ch.text)), lambda: at() + ': constraints announced')
        want = [o for o in sols if getattr(o, 'satisfy', False)]
        expect_eq([[id(o) for o, _ in k[2]] for k in other.calls], [[id(o) for o in want]] if want else [], lambda: at() + ': solutions given to the neighbourhood')
        for k in other.calls:
            expect(k[0] is solver and k[1] is ch and k[3] == MAX, lambda: at() + ': given to the neighbourhood')
        return tuple(sorted(set(statements(ch.text))))
    broken = breaks(inst, cal, modes, s)
    wins = windows(inst, cal, modes, s, broken)
    sets = sorted(set(every(once, floats=(0.01, 0.99))))
    rec.trans(len(runs))
    if flag:
        return
    last = len(next(iter(cal.values()))) - 1
    pts, info = [], []
    order = list(solver.resources_index)
    for md, st in every_point(inst, T, last):
        pts.append(tuple(st[t] for t in T) + tuple(inst['modes'][t][md[t]]['duration'] for t in T) + tuple(demand(inst, md, t, r) for r in order for t in T))
        info.append((md, st))
    names = ('s', 'd', 'rr', 'Tasks') if key[-1] == 'one' and not multi else ('start', 'adur', 'arreq', 'Act')
    arrays = [(names[0], '1..%d' % n, n), (names[1], '1..%d' % n, n), (names[2], '1..%d,1..%d' % (len(order), n), len(order) * n)]
    got = [frozenset(k) for k in evaluate(sets, pts, arrays, 'set of int: %s = 1..%d;' % (names[3], n))]
    use = [{b: sum(demand(inst, md, t, b[0]) for t in st if b[1] in busy(inst, md, st, t)) <= cal[b[0]][b[1]] for b in broken} for md, st in info]
    inside = [all(in_window(st[t], lo, hi) for t, lo, hi in wins) for md, st in info]
    want = set()
    for kept in itertools.product((False, True), repeat=len(broken)):
        want.add(frozenset(i for i in range(len(pts)) if inside[i] and all(use[i][b] for b, k in zip(broken, kept) if k)))
    for ok in got:
        for i, (md, st) in enumerate(info):
            if i not in ok and not breaks(inst, cal, md, st):
                expect(False, lambda: '%s: a schedule which meets the calendars is excluded: %r, %r' % (at(), md, st))
    expect(set(got) == want, lambda: '%s: constraints of %d kinds instead of %d; they allow %r points instead of %r' % (
        at(), len(set(got)), len(want), sorted(map(len, set(got))), sorted(map(len, want))))
    rec.states += len(pts)
    rec.outcome(len(broken))


# ------------------------------------------------------------------------------------------------ instances

def setting(multi, key):
    """(instance, model, calendars); key = (number of the instance, calendar(s), which solver)"""
    which, cals, _ = key
    L = len(cals[0])
    if not multi:
        edges, durs, needs, more = SINGLE[which]
        spec = (edges, durs, needs, {'r%d' % (i + 1): list(q) for i, q in enumerate(cals)}, (), more, L - 1)
        inst, m = S1.setting(spec)
        cal = {r: list(q) for r, q in m.resources.items()}
        return dict(inst, res=cal), m, cal
    modes, edges, emp = SKILLED[which]
    inst = S2.graph(modes, edges, emp, res={'r%d' % (i + 1): list(q) for i, q in enumerate(cals)}, H=L - 1, length=L)
    return inst, S2.model(inst), {r: list(q) for r, q in inst['res'].items()}


N1 = [{'r1': 1, 'r2': 1}, {'r1': 2}]
SINGLE = [((), (2, 1), N1, None), (((0, 1),), (1, 2), N1, None), ((), (2, 2), [{'r1': 2}, {'r1': 1, 'r2': 2}], None),
          ((), (1, 2), [{'r1': 1}, {'r1': 2, 'r2': 1}], {0: {2: (2, {'r2': 1})}, 1: {2: (1, {'r1': 1})}}),
          ((), (3, 0), [{'r1': 1, 'r2': 2}, {'r1': 1}], {1: {2: (2, {'r1': 1, 'r2': 1})}})]
EMP = {1: ({'a': 1}, [1]), 2: ({'b': 1}, [0]), 3: ({'a': 2, 'b': 1}, [2])}
SKILLED = [({2: {1: (2, {'a': 1, 'r1': 1, 'r2': 1})}, 3: {1: (1, {'r1': 2})}}, [], EMP),
           ({2: {1: (1, {'r1': 1}), 2: (2, {'a': 1, 'r2': 1})}, 3: {1: (2, {'b': 1, 'r1': 2, 'r2': 1}), 2: (1, {'r1': 1})}}, [], EMP),
           ({2: {1: (2, {'r1': 2})}, 3: {1: (2, {'b': 1, 'r1': 1, 'r2': 2})}}, [(2, 3)], EMP)]
CALS = [((2, 0, 2, 2, 2, 2, 2), (2, 2, 1, 2, 2, 2, 2)), ((0, 2, 1, 0, 2, 2, 2), (2, 0, 2, 2, 2, 2, 2)), ((1, 1, 2, 2, 0, 0, 0), (2,) * 7),
        ((2, 1, 0, 0, 2, 1, 2), (0, 0, 2, 2, 2, 2, 2)), ((2, 2, 0, 1, 2, 2, 2), (1, 2, 0, 0, 2, 2, 2)),
        ((2, 0, 1, 0, 0, 2, 2), (2, 2, 2, 2, 2, 2, 2))]


def sol(m, inst, modes, s, perm=None):
    T = inst['tasks']
    x = M.RCPSPSolution(problem=m, rcpsp_schedule={t: {'start_time': s[t], 'end_time': s[t] + dur(inst, modes, t)} for t in T}, rcpsp_modes=[modes[t] for t in T[1:-1]],
                        rcpsp_schedule_feasible=True, **({} if perm is None else {'rcpsp_permutation': perm}))
    return x


def ms_sol(m, inst, modes, s, use=None):
    return S2.X.MS_RCPSPSolution(problem=m, modes=dict(modes), schedule=S2.schedule_of(inst, modes, s), employee_usage=use or {})


# ------------------------------------------------------------------------------------------------ rebuilt schedules

def rebuilt(rec, c):
    """single-skill: a schedule which breaks the calendars is decoded again from its order and modes, under the calendars"""
    key, members, part = c
    inst, m, cal = setting(False, key)
    T = inst['tasks']
    sols, want = [], []
    for modes_, dates, perm in members:
        modes = dict(zip(T, (1,) + modes_ + (1,)))
        s = finish(inst, modes, dates)
        x = sol(m, inst, modes, s, list(perm))
        sols.append((x, -float(s[T[-1]])))
        if breaks(inst, cal, modes, s) and not part:
            H = m.horizon
            ref = P.sgs(inst, [T[0]] + [T[1:-1][i] for i in perm] + [T[-1]], modes, H)
            want.append((modes, ref))
    what = lambda: 'calendars %r, schedules %r, partial %r' % (key, members, part)
    store = ResultStorage(list_solution_fits=list(sols), mode_optim=MAX)
    p = S1.partial(part) if part else None
    out = CS.PostProcessSolutionNonFeasible(m, m, partial_solution=p).build_other_solution(store)
    got = out.list_solution_fits
    expect(len(got) == len(sols) + len(want) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(got, sols)), lambda: '%s: %d solutions instead of %d + %d' % (what(), len(got), len(sols), len(want)))
    for (x, _), (modes_, dates, _p) in zip(sols, members):
        modes = dict(zip(T, (1,) + modes_ + (1,)))
        expect_eq(bool(x.satisfy), not breaks(inst, cal, modes, finish(inst, modes, dates)), lambda: what() + ': is %r said to satisfy' % (dates,))
    for (y, f), (modes, ref) in zip(got[len(sols):], want):
        if ref is None:
            expect(not y.satisfy, lambda: what() + ': a schedule which does not fit is said to satisfy')
            continue
        expect_eq(starts_of(y), ref, lambda: what() + ': rebuilt schedule')
        expect_eq([modes[t] for t in T[1:-1]], list(y.rcpsp_modes), lambda: what() + ': modes of the rebuilt schedule')
        expect(bool(y.satisfy), lambda: what() + ': the rebuilt schedule is said not to satisfy')
        expect_eq(f, -ref[T[-1]], lambda: what() + ': fitness of the rebuilt schedule')
        expect(y.problem is m, what)
    rec.state()
    rec.trans(len(want))


def ms_rebuilt(rec, c):
    key, members, part = c
    inst, m, cal = setting(True, key)
    T = inst['tasks']
    emps = list(inst['emp'])
    sols, want, flags = [], [], []
    for modes_, dates, use in members:
        modes = dict(zip(T, (1,) + modes_ + (1,)))
        s = finish(inst, modes, dates)
        u = {t: {e: set(k) for e, k in v.items()} for t, v in use.items()}
        sols.append((ms_sol(m, inst, modes, s, u), -float(s[T[-1]])))
        flags.append(S2.valid(inst, modes, s, u))
        if not flags[-1] and not part:
            prio = {t: list(use.get(t, {})) + [e for e in emps if e not in use.get(t, {})] for t in T}
            want.append((modes, S2.sgs(inst, sorted(T[1:-1], key=lambda t: s[t]), modes, prio)))
    what = lambda: 'multi-skill calendars %r, schedules %r, partial %r' % (key, members, part)
    store = ResultStorage(list_solution_fits=list(sols), mode_optim=MAX)
    p = S1.partial(part) if part else None
    out = CM.PostProcessSolutionNonFeasible(m, m, partial_solution=p).build_other_solution(store)
    got = out.list_solution_fits
    expect(len(got) == len(sols) + len(want) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(got, sols)), lambda: '%s: %d solutions instead of %d + %d' % (what(), len(got), len(sols), len(want)))
    expect_eq([bool(x.satisfy) for x, _ in sols], flags, lambda: what() + ': which of them are said to satisfy')
    for (y, f), (modes, ref) in zip(got[len(sols):], want):
        if ref is None:
            expect(not y.satisfy, lambda: what() + ': a schedule which does not fit is said to satisfy')
            continue
        expect_eq((S2.starts_of(y), {t: v for t, v in y.employee_usage.items() if v}), (ref[0], {t: v for t, v in ref[1].items() if v}), lambda: what() + ': rebuilt schedule')
        expect_eq({t: y.modes[t] for t in T}, modes, lambda: what() + ': modes of the rebuilt schedule')
        expect(bool(y.satisfy), lambda: what() + ': the rebuilt schedule is said not to satisfy')
        expect_eq(f, -ref[0][T[-1]], lambda: what() + ': fitness of the rebuilt schedule')
    rec.state()
    rec.trans(len(want))


def between(rec, c):
    """the constraints between tasks of a partial solution, as the rebuilding judges them"""
    multi, key, part = c
    inst, m, cal = setting(multi, key)
    T = inst['tasks']
    judge = (CM if multi else CS).PostProcessSolutionNonFeasible(m, m, partial_solution=S1.partial({'start_together': [], 'start_at_end': [], 'start_at_end_plus_offset': [], 'start_after_nunit': [], **part}))
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in T[1:-1]]):
        modes = dict(zip(T, (1,) + ms + (1,)))
        for dates in itertools.product(range(5), repeat=len(T) - 2):
            s = finish(inst, modes, dates)
            x = ms_sol(m, inst, modes, s, {}) if multi else sol(m, inst, modes, s, list(range(len(T) - 2)))
            expect_eq(bool(judge.check_sol(m, x)), S1.holds(part, modes, inst, s), lambda: 'are the constraints %r held by %r in modes %r' % (part, s, modes))
            rec.states += 1
    rec.trans()


# ------------------------------------------------------------------------------------------------ the loop

class Clock:
    now = 0.

    def time(self):
        return self.now

    def __getattr__(self, a):
        import time
        return getattr(time, a)


CLOCK = Clock()
CS.time = CM.time = CLOCK


def flagged(pairs):
    out = []
    for k, f, ok in pairs:
        x = Sol(k, {'a': f})
        x.satisfy = ok
        out.append((x, f))
    return out


def pairs_of(store):
    return sorted({(s.key, f) for s, f in store.list_solution_fits})


class World:
    def __init__(self, kinds, start, sense, cost, multi):
        self.kinds, self.start, self.sense, self.cost, self.multi = kinds, start, sense, cost, multi
        self.i, self.seen, self.instance, self.limits = -1, [], self, []

    def get_starting_solution(self):
        expect(self.start is not None, 'no initial solution is asked when it is skipped')
        return ResultStorage(list_solution_fits=flagged(self.start), mode_optim=self.sense)

    def build_other_solution(self, result_storage):     # one more solution, made of the last one
        k, f, ok = made(result_storage.list_solution_fits[-1][0].key, result_storage.list_solution_fits[-1][1], self.sense)
        result_storage.list_solution_fits += flagged([(k, f, ok)])
        return result_storage

    def adding_constraint_from_results_store(self, cp_solver, child_instance, result_storage):
        expect(cp_solver is self and child_instance is self.child, 'solver and branch given to the neighbourhood')
        self.given = pairs_of(result_storage)
        k = self.i + 1
        if k % 3 == 2:
            child_instance.add_string('other %d' % k)
            return [['other %d' % k], []][k % 2]
        child_instance.add_string('cut %d' % k)
        child_instance.add_string('cut again')
        child_instance.add_string('not kept %d' % k)
        return ['req', 'cut %d' % k, 'cut again']

    @contextlib.contextmanager
    def branch(self):
        self.child = Branch(self)
        self.given = None
        yield self.child
        self.child = None

    def retrieve_solutions(self, result, parameters_cp):
        expect(parameters_cp is self.params, 'parameters of the results')
        return ResultStorage(list_solution_fits=flagged(result.pairs), mode_optim=self.sense)


class Branch(Child):
    def __init__(self, w):
        Child.__init__(self)
        self.w = w

    def solve(self, timeout, intermediate_solutions):
        w = self.w
        w.i += 1
        expect(self is w.child, 'the branch is solved')
        expect_eq(timeout.total_seconds(), w.params.TimeLimit_iter0 if w.i == 0 else w.params.TimeLimit, 'time limit of the iteration')
        expect_eq(intermediate_solutions, w.params.intermediate_solution, 'intermediate solutions')
        w.seen.append((w.given, sorted(set(self.text))))
        CLOCK.now += w.cost
        self.pairs = result(w.i, w.kinds[w.i], w.sense)
        self.status = Status.OPTIMAL_SOLUTION if 'optimal' in w.kinds[w.i] else Status.SATISFIED
        return self


def result(i, kind, sense):
    up = 1 if sense == MAX else -1
    kind = kind.replace(' optimal', '')
    return {'none': [], 'break': [(10 * i + 20, up * 50. + i * up, False)], 'worse': [(10 * i + 20, -up * 50., True)],
            'satisfy': [(10 * i + 20, up * (10. + i), True)], 'same': [(17, up * 10., True)], 'two': [(10 * i + 20, up * 5., False), (10 * i + 21, up * 30., True)]}[kind]


def made(k, f, sense):
    return (k + 5, f - (1 if sense == MAX else -1), k % 2 == 0)


def loop(rec, c):
    multi, kinds, start, sense, limit, most, cost = c
    CLOCK.now = 7000.
    first = {'none': None, 'one': [(0, 0., True)], 'two': [(0, -3., False), (1, 2., True)]}[start]
    w = World(kinds, first, sense, cost, multi)
    mod = CM if multi else CS
    w.params = ParametersCP.default()
    w.params.TimeLimit, w.params.TimeLimit_iter0, w.params.intermediate_solution = 7, 11, bool(len(kinds) % 2)
    s = object.__new__(mod.SolverWithCalendarIterative)
    prob = Prob([('a', 1.)], sense)
    s.problem_calendar = s.problem_no_calendar = prob
    s.initial_solution_provider = s.constraint_handler = s.cp_solver = s.post_process_solution = w
    s.params_objective_function = DO.ParamsObjectiveFunction(DO.ObjectiveHandling.AGGREGATE, ['a'], [1.], sense)
    kw = {}
    if limit is not None:
        kw['nb_iteration_no_improvement'] = limit
    if most is not None:
        kw['max_time_seconds'] = most
    if first is None:
        kw['skip_first_iteration'] = True
    store = s.solve(parameters_cp=w.params, nb_iteration_lns=len(kinds), **kw)
    up = 1 if sense == MAX else -1
    have, ok, last, best, kept, seen, count = {}, {}, None, None, set(), [], 0

    def add(pairs):
        new = list(pairs) + [made(pairs[-1][0], pairs[-1][1], sense)]
        for k, f, y in new:
            have[k] = f
            ok[k] = y
        return new
    if first is not None:
        last = add(first)
        last = {(k, f) for k, f, _ in last}
        best = max(up * f for f in have.values())
    for i, kind in enumerate(kinds):
        texts = set(kept)
        if last is not None:
            if i % 3 == 2:
                texts |= {'other %d' % i}
            else:
                texts |= {'cut %d' % i, 'cut again', 'not kept %d' % i}
                kept |= {'cut %d' % i, 'cut again'}
        seen.append((None if last is None else sorted(last), sorted(texts)))
        r = result(i, kind, sense)
        better = False
        top_ok = None
        if r:
            new = add(r)
            top = max(new, key=lambda x: up * x[1])
            better = best is None or up * top[1] > best
            top_ok = top[2]
            if better:
                best = up * top[1]
            last = {(k, f) for k, f, _ in new} | {(k, f) for k, f in have.items() if not multi or ok[k]}
        count = 0 if better else count + 1
        rec.trans()
        if first is None and i == 0 and 'optimal' in kind and top_ok:
            break
        if most is not None and cost * (i + 1) > most:
            break
        if count > (limit if limit is not None else 2 * len(kinds)):
            break
    at = lambda: 'of %r' % (c,)
    expect_eq(len(w.seen), len(seen), lambda: 'iterations ' + at())
    expect_eq(w.seen, seen, lambda: 'solutions given to the neighbourhood and constraints in force at each iteration ' + at())
    if have:
        expect_eq(pairs_of(store), sorted(have.items()), lambda: 'solutions returned ' + at())
    rec.state()
    rec.outcome(len(seen))


# ------------------------------------------------------------------------------------------------ whole searches

class Nothing:
    def adding_constraint_from_results_store(self, cp_solver, child_instance, result_storage):
        return []


def whole(rec, c):
    multi, inst, key, iters, skip, draw = c
    if multi:
        m = S2.model(inst)
        cal = inst['res']
    else:
        inst, m, cal = setting(False, key)
    T = inst['tasks']
    at = lambda: 'search %r of %r' % ((key, iters, skip, draw), inst)
    last = len(next(iter(cal.values()))) - 1 if cal else inst['H']

    def once():
        s = (CM if multi else CS).SolverWithCalendarIterative(m)
        s.constraint_handler.other_constraint = Nothing()
        return s.solve(parameters_cp=cp(True), nb_iteration_lns=iters, skip_first_iteration=skip)
    for st in every(once, floats=(draw,)):
        top = None
        for x, f in st.list_solution_fits:
            if multi:
                d, modes = S2.starts_of(x), dict(x.modes)
                good = S2.valid(inst, modes, d, x.employee_usage)
            else:
                d, modes = starts_of(x), dict(zip(T, [1] + list(x.rcpsp_modes) + [1]))
                good = P.feasible(inst, modes, d)
            expect_eq(bool(x.satisfy), good, lambda: '%s: is %r said to satisfy the calendars' % (at(), d))
            expect_eq(f, -d[T[-1]], lambda: at() + ': fitness')
            expect(all(d[b] >= d[a] + inst['modes'][a][modes[a]]['duration'] for a in T for b in inst['succ'][a]), lambda: '%s: precedences of %r' % (at(), d))
            if good:
                top = max(f, top if top is not None else f)
        opt = S3best(inst, last, rec) if multi else S1.best(inst, last, None, rec)
        expect(top is not None and -top >= opt, lambda: '%s: least makespan which satisfies %r, optimum %r' % (at(), top, opt))
        b, f = st.get_best_solution_fit()
        if b.satisfy:
            expect_eq(-f, opt, lambda: at() + ': the best solution satisfies the calendars and is the best without them, makespan')
        rec.outcome(-top - opt)
        rec.state()


def S3best(inst, last, rec):
    from checks import c30_multiexact as S3
    return S3.best(inst, last, last, '', None, rec)


def build(ck):
    jobs = []
    for multi, fam in ((False, SINGLE), (True, SKILLED)):
        for w, x in enumerate(fam):
            several = any(len(ms) > 1 for t, ms in (setting(multi, (w, CALS[0], 'several'))[0]['modes']).items())
            choices = list(itertools.product((1, 2), repeat=2)) if several else [(1, 1)]
            for q, cals in enumerate(CALS):
                for mi, mds in enumerate(choices):
                    inst = setting(multi, (w, cals, 'several'))[0]
                    if any(b not in inst['modes'][t] for t, b in zip((2, 3), mds)):
                        continue
                    for k, dates in enumerate(itertools.product(range(4), repeat=2)):
                        if not THOROUGH and (k + 3 * q + mi + w) % (5 if multi or several else 3):
                            continue
                        which = 'several' if several or multi or (k + q) % 2 else 'one'
                        T = inst['tasks']
                        modes = dict(zip(T, (1,) + mds + (1,)))
                        if len(breaks(inst, inst['res'], modes, finish(inst, modes, dates))) > 5:
                            continue
                        jobs.append((multi, (w, cals, which), mds, dates, (None, False, None, True)[(k + q + w) % 4], (0, 1, 2, 3)[(k + mi + q // 2) % 4]))
    ck.run(jobs, constraints, 'constraints from calendars', chunk=4, timeout=60)
    jobs = []
    for w in range(len(SINGLE)):
        for cals in CALS + [((2, 0, 0, 0, 0, 0, 0), (2,) * 7)]:
            inst = setting(False, (w, cals, 'several'))[0]
            ms = [p for p in itertools.product((1, 2), repeat=2) if all(b in inst['modes'][t] for t, b in zip((2, 3), p))]
            mem = [(p, d, o) for p in ms for d in itertools.product(range(4), repeat=2) for o in ((0, 1), (1, 0))]
            if SINGLE[w][0]:
                mem = [x for x in mem if x[1][1] >= x[1][0] + SINGLE[w][1][0]]
            step = 1 if THOROUGH else 2
            for i in range(0, len(mem), step):
                jobs.append(((w, cals, 'several'), tuple(mem[(i + 7 * j) % len(mem)] for j in range(1 + i // step % 3)), {'start_times': {2: 0}} if i % 9 == 4 else None))
    ck.run(jobs, rebuilt, 'rebuilt schedules', chunk=100, timeout=10)
    jobs = []
    for w in range(len(SKILLED)):
        for cals in CALS + [((2, 0, 0, 0, 0, 0, 0), (2,) * 7)]:
            inst = setting(True, (w, cals, 'several'))[0]
            ms = [p for p in itertools.product((1, 2), repeat=2) if all(b in inst['modes'][t] for t, b in zip((2, 3), p))]
            mem = [(p, d, u) for p in ms for d in itertools.product(range(4), repeat=2) for u in ({2: {1: ('a',)}, 3: {2: ('b',)}}, {2: {3: ('a',)}, 3: {3: ('b',)}}, {2: {3: ('a',), 1: ('a',)}, 3: {}})
                   if len(p) and (not SKILLED[w][1] or d[1] >= d[0] + 2)]
            need = lambda p, t, inst=inst: {s for s in ('a', 'b') if inst['modes'][t][p[t - 2]].get(s)}
            mem = [(p, d, {t: {e: k for e, k in v.items() if set(k) & need(p, t)} for t, v in u.items()}) for p, d, u in mem]
            step = 1 if THOROUGH else 3
            for i in range(0, len(mem), step):
                jobs.append(((w, cals, 'several'), tuple(mem[(i + 7 * j) % len(mem)] for j in range(1 + i // step % 3)), {'start_times': {2: 0}} if i % 9 == 4 else None))
    ck.run(jobs, ms_rebuilt, 'rebuilt multi-skill schedules', chunk=60, timeout=10)
    kinds = [{'start_together': [(2, 3)]}, {'start_at_end': [(2, 3)]}, {'start_at_end': [(3, 2)]}] + [{k: [(a, b, d)]} for k in ('start_at_end_plus_offset', 'start_after_nunit') for a, b in ((2, 3), (3, 2)) for d in (-2, -1, 0, 1, 2)]
    kinds += [{**x, **y} for x, y in itertools.combinations(kinds, 2) if not set(x) & set(y)][::3] + [{k: x[k] + y[k]} for x, y in itertools.combinations(kinds, 2) for k in set(x) & set(y)][::4]
    ck.run([(multi, (w, CALS[0], 'several'), x) for multi, n in ((False, len(SINGLE)),) for w in range(n) for x in kinds], between, 'constraints between tasks', chunk=30, timeout=60)
    jobs = []
    N = 4 if THOROUGH else 3
    for multi in (False, True):
        for n in range(1, N + 1):
            for ks in itertools.product(('break', 'satisfy', 'none', 'worse', 'two', 'same'), repeat=n):
                for start in ('none', 'one', 'two'):
                    sense = (MAX, DO.ModeOptim.MINIMIZATION)[len(jobs) % 2]
                    jobs.append((multi, ks, start, sense, None, None, 0.))
                    if n > 1:
                        jobs.append((multi, ks, start, sense, (0, 1)[len(jobs) % 2], None, 1.))
                        jobs.append((multi, ks, start, sense, None, (1, 2.5)[len(jobs) // 2 % 2], 1.))
                    if ks[0] in ('break', 'satisfy', 'two'):
                        jobs.append((multi, (ks[0] + ' optimal',) + ks[1:], start, sense, None, None, 0.))
    ck.run(jobs, loop, 'loops', chunk=700, timeout=10)
    jobs = [(False, None, (w, cals, 'several'), it, skip, draw) for w in range(len(SINGLE)) for i, cals in enumerate(LONG) for it, skip, draw in (((2, False, 0.99), (2, True, 0.01), (3, True, 0.99))[(w + i) % 3],)]
    for i, (e, need, d, ed) in enumerate(itertools.product((EMP, {4: ({'a': 1, 'b': 1}, [0, 2]), 9: ({'a': 2}, [1])}), ([{'a': 1, 'r1': 1}, {'b': 1, 'r1': 1}], [{'a': 1}, {'r1': 2, 'a': 1}]), ((1, 2), (2, 1)), ((), ((2, 3),)))):
        inst = S2.project(list(d), list(ed), need, e, res={'r1': [2, 1, 0, 2, 2, 2, 2, 2, 2, 2, 2, 2]}, H=11, length=12)
        jobs.append((True, inst, i, *((2, False, 0.99), (2, True, 0.01), (3, True, 0.99))[i % 3]))
    ck.run(jobs, whole, 'whole searches', chunk=1, timeout=90)
    ck.rule = ('the text added to the constraint programmes for every choice of what is left out, evaluated at every schedule of two tasks: exactly the windows and '
               'capacities of the calendars; rebuilt schedules against reference schedule generation; every history of results of the loop against its reference; whole '
               'searches against brute force')
    ck.scope = 'two tasks with one or two modes, two resources with calendars of seven dates, three employees; histories of up to %d iterations' % N


LONG = [((2, 0, 1, 2, 2, 0, 2, 2, 2, 2, 2, 2), (2, 2, 0, 2, 2, 2, 2, 2, 2, 2, 2, 2)), ((2,) * 12, (2,) * 12), ((0, 0, 2, 0, 2, 2, 2, 2, 2, 2, 2, 2), (2,) * 12)]
