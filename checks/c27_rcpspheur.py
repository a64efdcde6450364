"""C27: heuristics of project scheduling (greedy piles, priority lists, critical path), views of their schedules, and PSPLIB files."""
import itertools
from heapq import heappop, heappush
from copy import deepcopy
from mc import nondet
from checks import mipstand  # noqa
from checks import nogurobi  # noqa
from checks import rcpspref as P
from checks.c25_models import data_free
from checks.c20_rcpsp import build_model, M, starts_of
from checks.c26_combsolvers import D
from mc.core import expect, expect_eq, THOROUGH
import numpy as np
with data_free():
    from skdecide.builders.discrete_optimization.rcpsp.solver import rcpsp_pile as G
    from skdecide.builders.discrete_optimization.rcpsp.solver import cpm as CPM
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_utils as U
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_parser as F

GC = G.GreedyChoice


def below(inst):
    out = {t: set() for t in inst['tasks']}
    for t in reversed(topological(inst)):
        for s in inst['succ'][t]:
            out[t] |= {s} | out[s]
    return out


def topological(inst):
    pr = P.preds(inst)
    order = []
    while len(order) < len(inst['tasks']):
        order += [t for t in inst['tasks'] if t not in order and pr[t] <= set(order)]
    return order


def dur(inst, modes, t):
    return inst['modes'][t][modes[t]]['duration']


class Pile:
    """tasks which fit are started one after the other; when none fits the first completion is processed"""

    def __init__(self, inst, modes):
        self.i, self.m = inst, modes
        self.left = dict(inst['res'])
        self.now, self.queue, self.start, self.done = 0, [], {1: 0}, {1}
        self.pr = P.preds(inst)
        self.order = []

    def fits(self):
        return [t for t in self.i['tasks'] if t not in self.start and self.pr[t] <= self.done
                and all(self.i['modes'][t][self.m[t]][r] <= q for r, q in self.left.items())]

    def take(self, t):
        self.start[t] = self.now
        self.order.append(t)
        heappush(self.queue, (self.now + dur(self.i, self.m, t), t))
        for r in self.left:
            self.left[r] -= self.i['modes'][t][self.m[t]][r]

    def tick(self):
        self.now, t = heappop(self.queue)
        self.done.add(t)
        for r in self.left:
            if r not in self.i['nr']:
                self.left[r] += self.i['modes'][t][self.m[t]][r]

    def run(self, pick):
        while len(self.start) < len(self.i['tasks']):
            f = self.fits()
            if f:
                self.take(pick(f))
            else:
                self.tick()
        return self.start


def outcomes(inst, modes, allowed):
    """all the runs of a pile which takes one of allowed(fitting tasks) each time: {order of the tasks: start dates}"""
    out = {}

    def rec(prefix):
        p = Pile(inst, modes)
        rest = list(prefix)
        fork = []

        def pick(f):
            ok = allowed(f)
            if rest:
                return rest.pop(0)
            fork.append(ok)
            raise StopIteration
        try:
            p.run(pick)
        except StopIteration:
            for t in fork[0]:
                rec(prefix + [t])
            return
        out[tuple(prefix)] = dict(p.start)
    rec([])
    return out


def choices(inst, modes):
    nb = {t: len(s) for t, s in below(inst).items()}

    def best(key):
        return lambda f: [t for t in f if key(t) == max(key(x) for x in f)]
    return {GC.MOST_SUCCESSORS: best(lambda t: nb[t]), GC.FASTEST: best(lambda t: -dur(inst, modes, t)), GC.TOTALLY_RANDOM: lambda f: f,
            GC.SAMPLE_MOST_SUCCESSORS: lambda f: [t for t in f if nb[t]] or f}


def makespan(inst, modes, starts):
    return max(s + dur(inst, modes, t) for t, s in starts.items())


def check_result(rs, inst, model, modes, want, at):
    """want {order: starts}: the result is one of them; gives its order"""
    expect_eq(len(rs.list_solution_fits), 1, lambda: at() + ': number of solutions')
    sol, fit = rs.list_solution_fits[0]
    expect(rs.get_best_solution() is sol, lambda: at() + ': best solution')
    order = tuple(p + 2 for p in sol.rcpsp_permutation) + (inst['tasks'][-1],)
    expect(order in want, lambda: '%s: order %r, expected one of %r' % (at(), order, sorted(want)))
    expect_eq({t: (v['start_time'], v['end_time']) for t, v in sol.rcpsp_schedule.items()}, {t: (s, s + dur(inst, modes, t)) for t, s in want[order].items()},
              lambda: '%s: schedule of the order %r' % (at(), order))
    mk = makespan(inst, modes, want[order])
    expect_eq(fit, -mk, lambda: at() + ': fitness')
    expect_eq(list(sol.rcpsp_modes), [modes[t] for t in inst['tasks'][1:-1]], lambda: at() + ': modes')
    expect(sol.rcpsp_schedule_feasible is True and model.satisfy(sol), lambda: at() + ': said infeasible')
    expect(P.feasible(inst, modes, starts_of(sol)), lambda: at() + ': infeasible %r' % sol.rcpsp_schedule)
    expect_eq(rs.mode_optim, D.ModeOptim.MAXIMIZATION, lambda: at() + ': sense')
    return order


def piles(rec, c):
    """the four greedy choices of one instance; random ones over all the outcomes of their draws"""
    edges, durs, needs, res, nr, more, H = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H)
    solver = G.PileSolverRCPSP(model)
    before = deepcopy((model.resources, model.mode_details, model.successors))
    modes = {t: solver.modes_dict[t] for t in inst['tasks']}
    expect(all(m in inst['modes'][t] for t, m in modes.items()), lambda: 'modes %r of %r' % (modes, c))
    expect(all(P.total(inst, modes, r) <= P.avail(inst, r, 0) for r in inst['nr']) and all(inst['modes'][t][m][r] <= P.avail(inst, r, 0)
           for t, m in modes.items() for r in inst['res']), lambda: 'modes %r of %r do not fit' % (modes, c))
    rec.state()
    for choice, allowed in choices(inst, modes).items():
        want = outcomes(inst, modes, allowed)
        seen = set()
        at = lambda: '%s of %r' % (choice, c)
        if choice in (GC.TOTALLY_RANDOM, GC.SAMPLE_MOST_SUCCESSORS):
            for (how, rs), tr, _ in nondet.explore(lambda: solver.solve(greedy_choice=choice)):
                expect(how == 'ok', lambda: '%s: %r' % (at(), rs))
                seen.add(check_result(rs, inst, model, modes, want, at))
                rec.trans()
            expect_eq(seen, set(want), lambda: at() + ': orders reached by the draws')
        else:
            check_result(solver.solve(greedy_choice=choice), inst, model, modes, want, at)
            if choice == GC.MOST_SUCCESSORS:
                check_result(solver.solve(), inst, model, modes, want, lambda: 'default choice of %r' % (c,))
                rec.trans()
            rec.trans()
        rec.states += len(want)
    expect_eq((model.resources, model.mode_details, model.successors), before, lambda: 'the problem %r was modified' % (c,))


def calendars(rec, c):
    """greedy solver with calendars (and without): its schedules respect the availability of each date"""
    edges, durs, needs, res, nr, more, H = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H)
    solver = G.PileSolverRCPSP_Calendar(model)
    before = deepcopy((model.resources, model.mode_details, model.successors))
    modes = {t: solver.modes_dict[t] for t in inst['tasks']}
    rec.state()
    long = {r: q if isinstance(q, int) else list(q) + [q[-1]] * 300 for r, q in inst['res'].items()}
    inst2 = dict(inst, res=long)
    orders = choices(inst, modes)
    for choice in GC:
        seen = set()
        for (how, rs), tr, _ in nondet.explore(lambda: solver.solve(greedy_choice=choice)):
            at = lambda: '%s (draws %r) of %r' % (choice, tr, c)
            expect(how == 'ok', lambda: '%s: %r' % (at(), rs))
            sol, fit = rs.list_solution_fits[0]
            starts = starts_of(sol)
            expect_eq(sorted(starts), inst['tasks'], lambda: at() + ': tasks')
            expect(all(v['end_time'] == v['start_time'] + dur(inst, modes, t) for t, v in sol.rcpsp_schedule.items()), lambda: at() + ': end dates')
            expect(starts[1] == 0 and P.feasible(inst2, modes, starts), lambda: '%s: infeasible %r' % (at(), sol.rcpsp_schedule))
            expect(model.satisfy(sol), lambda: at() + ': does not satisfy')
            expect_eq(fit, -starts[inst['tasks'][-1]], lambda: at() + ': fitness')
            expect_eq(list(sol.rcpsp_modes), [modes[t] for t in inst['tasks'][1:-1]], lambda: at() + ': modes')
            perm = list(sol.rcpsp_permutation)
            expect_eq(sorted(perm), list(range(len(durs))), lambda: at() + ': permutation')
            expect(all(starts[a + 2] <= starts[b + 2] for a, b in zip(perm, perm[1:])), lambda: '%s: permutation %r of %r' % (at(), perm, starts))
            rules(inst2, modes, [1] + [p + 2 for p in perm] + [inst['tasks'][-1]], starts, choice, at)
            rec.trans()
            rec.states += (starts_key(starts) not in seen)
            seen.add(starts_key(starts))
        expect(seen, 'no run')
    expect_eq((model.resources, model.mode_details, model.successors), before, lambda: 'the problem %r was modified' % (c,))


def rules(inst, modes, order, starts, choice, at):
    """at the end of a task (or at 0), no task is left which was ready before and fits with a spare unit of time; nor is one passed over for a worse one"""
    pr = P.preds(inst)
    nb = {t: len(s) for t, s in below(inst).items()}
    end = {t: s + dur(inst, modes, t) for t, s in starts.items()}
    key = {GC.MOST_SUCCESSORS: lambda t: nb[t], GC.FASTEST: lambda t: -dur(inst, modes, t)}.get(choice)

    def fits(t, now, placed):
        if any(end[p] >= now and not (p == 1 and now == 0) for p in pr[t]):
            return False
        return all(P.usage(inst, modes, {x: starts[x] for x in placed}, r, u) + inst['modes'][t][modes[t]][r] <= P.avail(inst, r, u)
                   for r in inst['res'] if r not in inst['nr'] for u in range(now, now + dur(inst, modes, t) + 1))
    for now in set(end.values()):
        early = [x for x in starts if starts[x] <= now]
        for t in starts:
            expect(starts[t] <= now or not fits(t, now, early), lambda: '%s: the task %r is left at %d in %r' % (at(), t, now, starts))
    if key:
        for i, a in enumerate(order[1:], 1):
            for b in order[i + 1:]:
                expect(key(a) >= key(b) or not fits(b, starts[a], order[:i]), lambda: '%s: the task %r is preferred to %r in %r' % (at(), a, b, starts))


def starts_key(s):
    return tuple(sorted(s.items()))


def priorities(rec, c):
    """all the priority lists (and modes) of one instance"""
    edges, durs, needs, res, nr, more, H = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H)
    ex = G.Executor(model)
    n = len(durs)
    rec.state()
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]]):
        modes = dict(zip(inst['tasks'], (1,) + ms + (1,)))
        if any(P.total(inst, modes, r) > P.avail(inst, r, 0) for r in inst['nr']) or any(inst['modes'][t][m][r] > P.avail(inst, r, 0) for t, m in modes.items() for r in inst['res']):
            continue
        for perm in itertools.permutations(inst['tasks'][1:]):
            p = Pile(inst, modes)
            p.run(lambda f: min(f, key=perm.index))
            given = [1] + list(perm)
            rs = ex.compute_schedule_from_priority_list(given, dict(modes))
            at = lambda: 'priorities %r, modes %r of %r' % (perm, ms, c)
            check_result(rs, inst, model, modes, {tuple(p.order): dict(p.start)}, at)
            expect_eq(given, [1] + list(perm), lambda: at() + ': the list given was modified')
            rec.trans()
    # another problem of the same shape
    more2 = {i: {m: (d + 1, q) for m, (d, q) in x.items()} for i, x in (more or {}).items()}
    inst2 = P.instance(edges, [d + 1 for d in durs], needs, res, nr, more2)
    m2 = build_model(inst2, H + n + 1)
    ex.update(m2)
    modes = {t: 1 for t in inst['tasks']}
    if all(P.total(inst, modes, r) <= P.avail(inst, r, 0) for r in inst['nr']):
        p = Pile(inst2, modes)
        p.run(min)
        rs = ex.compute_schedule_from_priority_list(list(inst['tasks']), modes)
        expect_eq(starts_of(rs.list_solution_fits[0][0]), p.start, lambda: 'after the durations are updated, %r' % (c,))
    # resources and needs too, and back to the first problem
    up = {r: ([x + 1 for x in q] if isinstance(q, (list, tuple)) else q + 1) for r, q in res.items()}
    for more_needed in (0, 1):
        inst3 = P.instance(edges, durs, [{r: q + more_needed if q else 0 for r, q in x.items()} for x in needs], up, nr, more)
        if any(P.total(inst3, modes, r) > P.avail(inst3, r, 0) for r in nr):
            continue
        ex.update(build_model(inst3, H))
        p = Pile(inst3, modes)
        p.run(min)
        rs = ex.compute_schedule_from_priority_list(list(inst['tasks']), modes)
        expect_eq(starts_of(rs.list_solution_fits[0][0]), p.start, lambda: 'after the resources are updated, %r' % (c,))
    ex.update(model)
    if all(P.total(inst, modes, r) <= P.avail(inst, r, 0) for r in inst['nr']) and all(inst['modes'][t][1][r] <= P.avail(inst, r, 0) for t in modes for r in res):
        p = Pile(inst, modes)
        p.run(min)
        rs = ex.compute_schedule_from_priority_list(list(inst['tasks']), modes)
        expect_eq(starts_of(rs.list_solution_fits[0][0]), p.start, lambda: 'back to the first problem, %r' % (c,))


def critical(rec, c):
    """critical path method, and the generation schemes which use it"""
    edges, durs, needs, res, nr, more, H = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H)
    before = deepcopy((model.resources, model.mode_details, model.successors))
    cal = isinstance(model, M.RCPSPModelCalendar)
    short = {t: min(m['duration'] for m in ms.values()) for t, ms in inst['modes'].items()}
    order = topological(inst)
    pr = P.preds(inst)
    est, lft = {}, {}
    for t in order:
        est[t] = max([0] + [est[p] + short[p] for p in pr[t]])
    for t in reversed(order):
        lft[t] = min([est[inst['tasks'][-1]]] + [lft[s] - short[s] for s in inst['succ'][t]])
    cpm = CPM.CPM(model)
    rec.state()
    at = lambda: 'critical path of %r' % (c,)
    for again in range(2):
        path = cpm.run_classic_cpm()
        for t in inst['tasks']:
            o = cpm.map_node[t]
            expect_eq((o._ESD, o._EFD, o._LSD, o._LFD), (est[t], est[t] + short[t], lft[t] - short[t], lft[t]), lambda: '%s: dates of %r' % (at(), t))
        expect(path[0] == inst['tasks'][0] and path[-1] == inst['tasks'][-1], lambda: '%s: path %r' % (at(), path))
        expect(all(b in inst['succ'][a] and est[a] + short[a] == est[b] for a, b in zip(path, path[1:])), lambda: '%s: path %r' % (at(), path))
        expect_eq(sum(short[t] for t in path), est[inst['tasks'][-1]], lambda: '%s: length of the path %r' % (at(), path))
    ro = cpm.return_order_cpm()
    expect(sorted(ro) == inst['tasks'] and all((est[a], lft[a] - short[a]) <= (est[b], lft[b] - short[b]) for a, b in zip(ro, ro[1:])), lambda: '%s: order %r' % (at(), ro))
    rec.trans(2)
    if more or nr:
        return
    ones = {t: 1 for t in inst['tasks']}
    long = dict(inst, res={r: q if isinstance(q, int) else list(q) + [q[-1]] * 300 for r, q in inst['res'].items()})

    def valid(sched, what):
        expect_eq(sorted(sched), inst['tasks'], lambda: '%s: tasks of %s' % (at(), what))
        s = {t: v['start_time'] for t, v in sched.items()}
        expect(all(v['end_time'] == v['start_time'] + durs_of(inst, t) for t, v in sched.items()) and min(s.values()) >= 0 and P.feasible(long, ones, s), lambda: '%s: %s, infeasible %r' % (at(), what, sched))
        rec.trans()
        return s
    orders = [None] + [list(o) for o in itertools.permutations(inst['tasks'])] if len(inst['tasks']) < 5 else [None, list(inst['tasks']), list(inst['tasks'])[::-1]]
    for o in orders:
        for cut in (True, False):
            s = valid(cpm.run_sgs_on_order(cpm.map_node, path, o, cut)[0], 'generation scheme (order %r, by critical path: %s)' % (o, cut))
            if not cut:
                expect_eq(s, P.sgs(long, o or ro, ones, 300), lambda: '%s: generation scheme on the order %r' % (at(), o))
        valid(cpm.run_sgs_time_loop(cpm.map_node, path, o)[0], 'time loop (order %r)' % (o,))
    # first date at which a task can be done
    table = {r: [q] * (H + 1) if isinstance(q, int) else (list(q) + [q[-1]] * H)[:H + 1] for r, q in inst['res'].items()}
    for t in inst['tasks']:
        d = durs_of(inst, t)
        first = next((s for s in range(est[t], H - d + 1) if all(table[r][u] >= inst['modes'][t][1][r] for r in table for u in range(s, s + d))), None)
        if first is not None and first + d < H:
            expect_eq(tuple(cpm.get_first_time_to_do_one_task(table, t)), (first, first + d), lambda: '%s: first date for %r' % (at(), t))
    expect_eq((model.resources, model.mode_details, model.successors), before, lambda: 'the problem %r was modified' % (c,))


def durs_of(inst, t):
    return inst['modes'][t][1]['duration']


def views(rec, c):
    """consumption, differences and individual schedules of all the schedules of an instance"""
    edges, durs, needs, res, nr, more, H = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H)
    n = len(durs)
    cal = isinstance(model, M.RCPSPModelCalendar)
    rec.state()
    g = U.compute_graph_rcpsp(model)
    expect_eq(sorted((x[0], sorted(x[1].items())) for x in g.nodes), sorted((t, sorted((m, v['duration']) for m, v in ms.items())) for t, ms in inst['modes'].items()), lambda: 'nodes of the graph of %r' % (c,))
    want = []
    for a, bs in inst['succ'].items():
        ds = {m: v['duration'] for m, v in inst['modes'][a].items()}
        want += [(a, b, dict(ds, min_duration=min(ds.values()), max_duration=max(ds.values()), minus_min_duration=-min(ds.values()), minus_max_duration=-max(ds.values()), link=1)) for b in bs]
    expect_eq(sorted([(a, b, sorted(map(str, d.items()))) for a, b, d in g.edges]), sorted([(a, b, sorted(map(str, d.items()))) for a, b, d in want]), lambda: 'edges of the graph of %r' % (c,))
    sols = []
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]]):
        modes = dict(zip(inst['tasks'], (1,) + ms + (1,)))
        if any(P.total(inst, modes, r) > P.avail(inst, r, 0) for r in inst['nr']):
            continue
        for perm in itertools.permutations(range(n)):
            sol = M.RCPSPSolution(problem=model, rcpsp_permutation=list(perm), rcpsp_modes=list(ms))
            if not sol.rcpsp_schedule_feasible:
                continue
            starts = starts_of(sol)
            sols.append((sol, starts))
            mk = makespan(inst, modes, starts)
            at = lambda: 'schedule %r, modes %r of %r' % (starts, ms, c)
            names = list(inst['res'])
            for sub in [None] + [[x] for x in names] + [names[::-1]]:
                rs = sub or model.resources_list
                for future in (False, True):
                    cons, times = U.compute_resource_consumption(model, sol, list_resources=sub, future_view=future)
                    expect_eq(list(times), list(range(mk + 1)), lambda: at() + ': dates')
                    expect_eq(cons.tolist(), [[P.usage(inst, modes, starts, r, t - future) for t in range(mk + 1)] for r in rs], lambda: '%s: consumption of %r (future %r)' % (at(), rs, future))
                    rec.trans()
                mt, mc = U.compute_nice_resource_consumption(model, sol, list_resources=sub)
                for i, r in enumerate(rs):
                    expect_eq(list(mt[i]), [t for t in range(mk + 1) for _ in (0, 1)], lambda: at() + ': merged dates')
                    expect_eq(list(mc[i]), [P.usage(inst, modes, starts, r, t - k) for t in range(mk + 1) for k in (1, 0)], lambda: '%s: merged consumption of %r' % (at(), r))
            for sub in [None] + [[x] for x in names]:
                rs = sub or model.resources_list
                use = U.compute_schedule_per_resource_individual(model, sol, resource_types_to_consider=sub)
                expect_eq(sorted(use), sorted(rs), lambda: at() + ': resources of the individual schedule')
                for r in rs:
                    if r in inst['nr']:
                        continue
                    act = use[r]['activity']
                    top = model.resources[r] if not cal else max(model.resources[r])
                    expect_eq(act.shape, (mk + 1, top), lambda: '%s: individuals of %r' % (at(), r))
                    for t in inst['tasks']:
                        need = inst['modes'][t][modes[t]][r]
                        who = [k for k in range(top) if any(act[:, k] == t)]
                        ds = list(range(starts[t], starts[t] + dur(inst, modes, t)))
                        expect_eq(len(who), need if ds else 0, lambda: '%s: individuals of %r for the task %r' % (at(), r, t))
                        expect(all(list(np.nonzero(act[:, k] == t)[0]) == ds for k in who), lambda: '%s: dates of the individuals of %r for the task %r' % (at(), r, t))
                    expect_eq(use[r]['binary_activity'].tolist(), (act > 0).astype(float).tolist(), lambda: '%s: binary activity of %r' % (at(), r))
                    expect_eq(use[r]['total_activity'].tolist(), (act > 0).sum(axis=0).astype(float).tolist(), lambda: '%s: total activity of %r' % (at(), r))
                    boxes = sorted((round(b[0][0] + .25), b[0][2], round(b[0][1]), round(b[1][1])) for b in use[r]['boxes_time'])
                    expect_eq(boxes, sorted((k, t, starts[t], starts[t] + dur(inst, modes, t)) for t in inst['tasks'] for k in range(top) if any(act[:, k] == t)), lambda: '%s: boxes of %r' % (at(), r))
                rec.trans()
    for (a, sa), (b, sb) in itertools.product(sols[:12], repeat=2):
        expect_eq(U.all_diff_start_time((a, b)), {t: sa[t] - sb[t] for t in sa}, lambda: 'differences of start dates, %r and %r' % (sa, sb))
        if n > 1:
            x, y = a.generate_permutation_from_schedule(), b.generate_permutation_from_schedule()
            pairs = list(itertools.combinations(range(n), 2))
            tau = sum(1 if (x[i] - x[j]) * (y[i] - y[j]) > 0 else -1 for i, j in pairs) / len(pairs)
            expect(abs(U.kendall_tau_similarity((a, b)) - tau) < 1e-9, lambda: 'Kendall similarity of %r and %r' % (x, y))
        rec.trans()


def text(inst, horizon, n_modes_col=True):
    n = len(inst['tasks'])
    rs = list(inst['res'])
    out = ['*' * 72, 'file with basedata            : X.BAS', 'initial value random generator: 1', '*' * 72, 'projects                      :  1',
           'jobs (incl. supersource/sink ):  %d' % n, 'horizon                       :  %d' % horizon, 'RESOURCES',
           '  - renewable                 :  %d   R' % sum(r[0] == 'R' for r in rs), '  - nonrenewable              :  %d   N' % sum(r[0] == 'N' for r in rs),
           '  - doubly constrained        :  0   D', '*' * 72, 'PROJECT INFORMATION:', 'pronr.  #jobs rel.date duedate tardcost  MPM-Time',
           '    1     %d      0       9        9        9' % (n - 2), '*' * 72, 'PRECEDENCE RELATIONS:', 'jobnr.    #modes  #successors   successors']
    for t in inst['tasks']:
        out.append('%4d %8d %10d     %s' % (t, len(inst['modes'][t]), len(inst['succ'][t]), ''.join('%4d' % s for s in inst['succ'][t])))
    out += ['*' * 72, 'REQUESTS/DURATIONS:', 'jobnr. mode duration  ' + '  '.join('%s %s' % (r[0], r[1:]) for r in rs), '-' * 72]
    for t in inst['tasks']:
        for i, m in enumerate(sorted(inst['modes'][t])):
            v = inst['modes'][t][m]
            out.append(('%3d' % t if i == 0 else '   ') + '%8d %5d   ' % (m, v['duration']) + ''.join('%5d' % v[r] for r in rs))
    out += ['*' * 72, 'RESOURCEAVAILABILITIES:', '  ' + '  '.join('%s %s' % (r[0], r[1:]) for r in rs), ''.join('%5d' % inst['res'][r] for r in rs), '*' * 72, '']
    return '\n'.join(out)


def files(rec, c):
    """the PSPLIB text of an instance is parsed to that instance"""
    edges, durs, needs, res, nr, more, H = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    import tempfile
    import os
    with tempfile.NamedTemporaryFile('w', suffix='.sm', delete=False) as f:
        f.write(text(inst, H))
    try:
        m1, m2 = F.parse_psplib(text(inst, H)), F.parse_file(f.name)
    finally:
        os.remove(f.name)
    for m in (m1, m2):
        at = lambda: 'file of %r' % (c,)
        multi = any(len(x) > 1 for x in inst['modes'].values())
        expect_eq(type(m).__name__, 'MultiModeRCPSPModel' if multi else 'SingleModeRCPSPModel', lambda: at() + ': class')
        expect_eq((m.resources, sorted(m.non_renewable_resources), m.mode_details, m.successors, m.horizon, m.n_jobs), (inst['res'], sorted(nr), inst['modes'], inst['succ'], H, len(durs)), at)
        rec.trans()
    rec.state()


NEEDS = [{'R1': 1, 'R2': 0}, {'R1': 2, 'R2': 1}, {'R1': 0, 'R2': 2}]


def build(ck):
    single = []
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for e in P.dags(n):
            for d in itertools.product((1, 2), repeat=n) if n < 3 else [(1, 2, 3), (2, 1, 1), (0, 2, 1), (3, 2, 2)] if n == 3 else [(1, 2, 3, 1), (2, 2, 1, 3)]:
                for nd in itertools.product(NEEDS, repeat=n) if n < 3 else [NEEDS, NEEDS[::-1], [NEEDS[0]] * 3, [NEEDS[1], NEEDS[1], NEEDS[0]]] if n == 3 else [NEEDS + NEEDS[:1], NEEDS[:1] * 4]:
                    for res in ({'R1': 2, 'R2': 2}, {'R1': 3, 'R2': 3}):
                        single.append((e, d, tuple(nd), res, (), None, 20))
    four = [(e, d, tuple(NEEDS[i] for i in k), {'R1': 2, 'R2': 2}, (), None, 20) for e in P.dags(4) for d, k in (((1, 2, 3, 1), (0, 1, 2, 0)), ((2, 1, 1, 2), (0, 0, 0, 1)))]
    ck.run(single + four[::1 if THOROUGH else 3], piles, 'greedy', chunk=20, timeout=300)
    multi = []
    for e in P.dags(2) + P.dags(3)[::3]:
        n = 2 if e in P.dags(2) and len(multi) < 8 else 3
        for more in ({0: {2: (3, {'R1': 1, 'N1': 0})}}, {0: {2: (1, {'R1': 2, 'N1': 1})}, 1: {2: (2, {'R1': 1, 'N1': 1}), 3: (4, {'R1': 1, 'N1': 0})}}):
            for cap in (1, 2, 3):
                multi.append((e, (2, 1, 2)[:n], ({'R1': 2, 'N1': 1}, {'R1': 1, 'N1': 1}, {'R1': 1, 'N1': 0})[:n], {'R1': 2, 'N1': cap}, ('N1',), more, 30))
    ck.run(multi, piles, 'greedy with modes', chunk=2, timeout=300)
    cals = []
    for e in P.dags(2) + P.dags(3):
        n = 3 if e not in P.dags(2) or len(cals) >= 24 else 2
        for q1 in ([2, 2, 1, 0, 2], [0, 0, 2], [1, 2, 0, 0, 1, 2]):
            for q2 in ([2], [0, 2, 1, 2]):
                for d in ((1, 2, 1), (2, 3, 1)):
                    cals.append((e, d[:n], ({'R1': 1, 'R2': 0}, {'R1': 2, 'R2': 1}, {'R1': 1, 'R2': 2})[:n], {'R1': q1, 'R2': q2}, (), None, 30))
    ck.run(cals[::1 if THOROUGH else 2] + single[::40] + multi[::3], calendars, 'greedy with calendars', chunk=4, timeout=300)
    ck.run([c for c in single if len(c[1]) > 1][::1 if THOROUGH else 3] + four[::16] + multi, priorities, 'priority lists', chunk=10, timeout=300)
    ck.run(single + four + multi + cals, critical, 'critical paths', chunk=20, timeout=300)
    ck.run(single[::1 if THOROUGH else 4] + multi + cals[::2], views, 'views', chunk=10, timeout=300)
    ck.run([c[:2] + (tuple({k: v for k, v in x.items()} for x in c[2]),) + c[3:] for c in single + multi + four], files, 'files', chunk=50, timeout=300)
