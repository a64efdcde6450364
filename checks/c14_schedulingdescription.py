"""C14: what a scheduling domain says about its problem (graphs, durations, windows, modes, resources, task records) is what was declared."""
import itertools
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from checks import schedref as R
from skdecide import DiscreteDistribution
from skdecide.builders.scheduling.graph_toolbox import Graph
from skdecide.builders.scheduling import (task_duration as td, time_windows as tw, time_lag as tl, modes as md, precedence as pr,
                                          preemptivity as pe, resource_availability as ra, resource_costs as rc, conditional_tasks as ct,
                                          preallocations as pa, skills as sk, resource_consumption as rco, resource_type as rt,
                                          task_progress as tp)
from skdecide.builders.scheduling.resource_renewability import RenewableOnly, MixedRenewable
from skdecide.builders.scheduling.task import Task


# ------------------------------------------------------------------------------------------------------ graphs
def closure(nodes, edges):
    reach = {n: {b for a, b in edges if a == n} for n in nodes}
    ch = True
    while ch:
        ch = False
        for n in nodes:
            new = set(reach[n])
            for m in reach[n]:
                new |= reach[m]
            if new != reach[n]:
                reach[n], ch = new, True
    return reach


def graphs(rec, case):
    names, mask, und = case
    pairs = [(a, b) for a in names for b in names if a != b and (not und or names.index(a) < names.index(b))]
    edges = [p for i, p in enumerate(pairs) if mask >> i & 1]
    rec.state()
    rec.trans(len(edges))
    g = Graph([(n, {'w': i}) for i, n in enumerate(names)], [(a, b, {'c': 10 * i + 1}) for i, (a, b) in enumerate(edges)], und)
    both = edges + ([(b, a) for a, b in edges] if und else [])
    lab = lambda: 'graph %r %r %s' % (names, edges, 'undirected' if und else 'directed')
    expect_eq(sorted(g.get_nodes()), sorted(names), lab)
    expect_eq(set(g.get_edges()), set(both), lab)
    reach = closure(names, both)
    for n in names:
        suc, pre = {b for a, b in both if a == n}, {a for a, b in both if b == n}
        expect_eq(set(g.get_neighbors(n)), suc, lambda: '%s: neighbors of %r' % (lab(), n))
        expect_eq(set(g.get_predecessors(n)), pre, lambda: '%s: predecessors of %r' % (lab(), n))
        expect_eq(g.get_attr_node(n, 'w'), names.index(n), lambda: '%s: attribute of %r' % (lab(), n))
        expect_eq(g.get_attr_node(n, 'zz'), None, lambda: '%s: missing attribute of %r' % (lab(), n))
        if not und:
            expect_eq(sorted(g.successors_map()[n]), sorted(suc), lambda: '%s: successors_map of %r' % (lab(), n))
            expect_eq(sorted(g.predecessors_map()[n]), sorted(pre), lambda: '%s: predecessors_map of %r' % (lab(), n))
            expect_eq(set(g.descendants_map()[n]) - {n}, reach[n] - {n}, lambda: '%s: descendants of %r' % (lab(), n))
            up = {m for m in names if n in reach[m]}
            expect_eq(set(g.ancestors_map()[n]) - {n}, up - {n}, lambda: '%s: ancestors of %r' % (lab(), n))
            expect_eq(set(g.precedessors_nodes(n)) - {n}, up - {n}, lambda: '%s: predecessor nodes of %r' % (lab(), n))
    for i, (a, b) in enumerate(edges):
        expect_eq(g.get_attr_edge(a, b, 'c'), 10 * i + 1, lambda: '%s: attribute of edge %r' % (lab(), (a, b)))
        if und:
            expect_eq(g.get_attr_edge(b, a, 'c'), 10 * i + 1, lambda: '%s: attribute of edge %r' % (lab(), (b, a)))
    expect_eq(g.get_attr_edge(names[0], names[0], 'c'), None, lambda: '%s: attribute of a missing edge' % lab())
    if not und:
        loop = any(n in reach[n] for n in names)
        found = g.check_loop()
        expect_eq(bool(found), loop, lambda: '%s: check_loop' % lab())
        if found:
            cyc = [(e[0], e[1]) for e in found]
            expect(all(e in edges for e in cyc) and all(x[1] == y[0] for x, y in zip(cyc, cyc[1:] + cyc[:1])),
                   lambda: '%s: check_loop found %r' % (lab(), found))


def graph_cases():
    for names in (('a', 'b', 'c'), (3, 1, 2)):
        for m in range(64):
            yield (names, m, False)
        for m in range(8):
            yield (names, m, True)
    for m in range(4096):
        yield ((4, 2, 1, 3), m, False)


# ------------------------------------------------------------------------------------------------------ durations
def _dist_of(fn):
    out = {}
    for (k, v), _t, p in nondet.explore(fn):
        expect(k == 'ok', 'sampling a duration raised %r' % (v,))
        out[v] = out.get(v, 0.) + p
    return out


def same_dist(got, want, msg):
    got = {k: p for k, p in got.items() if p > 0}
    want = {k: p for k, p in want.items() if p > 0}
    expect(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-9 for k in want), lambda: '%s: got %r, expected %r' % (msg, got, want))


def as_dict(d):
    out = {}
    for v, p in d.get_values():
        out[v] = out.get(v, 0.) + p
    return out


def durations(rec, case):
    kind, arg = case
    lab = 'durations %s %r' % (kind, arg)
    rec.state()

    class Base:
        def __init__(self):
            self.sampled_durations = {}
    if kind == 'uniform':
        class X(Base, td.UniformBoundedTaskDuration):
            def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.):
                return arg[1] + 10 * (task - 1) + 100 * (mode - 1)

            def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.):
                return arg[0] + 10 * (task - 1) + 100 * (mode - 1)
        want = lambda t, m: {x + 10 * (t - 1) + 100 * (m - 1): 1. / (arg[1] - arg[0] + 1) for x in range(arg[0], arg[1] + 1)}
    elif kind == 'enumerable':
        class X(Base, td.EnumerableTaskDuration):
            def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
                return DiscreteDistribution([(x + 10 * (task - 1) + 100 * (mode - 1), p) for x, p in arg])
        want = lambda t, m: {x + 10 * (t - 1) + 100 * (m - 1): p for x, p in arg}
    elif kind == 'deterministic':
        class X(Base, td.DeterministicTaskDuration):
            def _get_task_duration(self, task, mode=1, progress_from=0.):
                return arg + 10 * (task - 1) + 100 * (mode - 1)
        want = lambda t, m: {arg + 10 * (t - 1) + 100 * (m - 1): 1.}
    elif kind == 'univariate':
        class X(Base, td.UncertainUnivariateTaskDuration):
            def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
                return DiscreteDistribution([(x + 10 * (task - 1) + 100 * (mode - 1), p) for x, p in arg])
        want = lambda t, m: {x + 10 * (t - 1) + 100 * (m - 1): p for x, p in arg}
    elif kind == 'multivariate':
        class X(Base, td.UncertainMultivariateTaskDuration):
            def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
                return DiscreteDistribution([(x + 10 * (task - 1) + 100 * (mode - 1) + (multivariate_settings or {}).get('t', 0), p) for x, p in arg])
        want = lambda t, m: {x + 10 * (t - 1) + 100 * (m - 1): p for x, p in arg}
    for t in (1, 2):
        for m in (1, 2):
            x = X()
            w = want(t, m)
            rec.trans()
            same_dist(as_dict(x.get_task_duration_distribution(t, m)), w, '%s: distribution of task %d mode %d' % (lab, t, m))
            same_dist(_dist_of(lambda: X().sample_task_duration(t, m)), w, '%s: sampled durations of task %d mode %d' % (lab, t, m))
            if kind == 'multivariate':
                same_dist(as_dict(x.get_task_duration_distribution(t, m, 0., {'t': 7})), {k + 7: p for k, p in w.items()}, '%s: distribution at 7' % lab)
            if not kind.endswith('variate'):
                pos = [k for k, p in w.items() if p > 0 or kind == 'enumerable']
                expect_eq(x.get_task_duration_upper_bound(t, m), max(pos), '%s: upper bound' % lab)
                expect_eq(x.get_task_duration_lower_bound(t, m), min(pos), '%s: lower bound' % lab)
            if kind == 'deterministic':
                expect_eq(x.get_task_duration(t, m), arg + 10 * (t - 1) + 100 * (m - 1), '%s: duration' % lab)
                expect_eq(x.get_latest_sampled_duration(t, m), arg + 10 * (t - 1) + 100 * (m - 1), '%s: latest duration' % lab)


def simulated(rec, case):
    """A simulated duration is drawn once per task, mode and progress, then kept: all sequences of requests."""
    ops = case

    def run():
        class X(td.SimulatedTaskDuration):
            def __init__(self):
                self.sampled_durations = {}

            def _sample_task_duration(self, task, mode=1, progress_from=0.):
                return 100 * task + 10 * mode + int(progress_from * 4) * 1000 + nondet.choose(2)
        x = X()
        return [getattr(x, f)(t, m, p) for f, t, m, p in ops]
    for (k, vals), trace, _p in nondet.explore(run):
        rec.trans()
        expect(k == 'ok', 'simulated durations %r raised %r' % (ops, vals))
        first = {}
        for (f, t, m, p), v in zip(ops, vals):
            expect(v in (100 * t + 10 * m + int(p * 4) * 1000, 100 * t + 10 * m + int(p * 4) * 1000 + 1),
                   'simulated durations %r: %r was never drawn for it' % (ops, v))
            expect(first.setdefault((t, m, p), v) == v, 'simulated durations %r: %r' % (ops, vals))
        expect(len(trace) == len(first), 'simulated durations %r: %d draws for %d tasks, modes and progresses' % (ops, len(trace), len(first)))


# ------------------------------------------------------------------------------------------------------ task records
def active(rec, case):
    """Active time of a task at any date: the time spent running since its start."""
    running, start, probe = case      # running: the task runs or not during each time unit from start
    d = len(running)
    task = Task(1)
    expect_eq(task.get_task_active_time(probe), 0, 'active time of a task not started')
    if not running or not running[0]:
        return
    rec.state()
    task.start = start
    for i in range(1, d):
        if running[i - 1] and not running[i]:
            task.paused.append(start + i)
        if not running[i - 1] and running[i]:
            task.resumed.append(start + i)
    for t in range(start, start + d + 1):
        # at date t, what happened up to t only
        now = Task(1)
        now.start = start
        now.paused = [x for x in task.paused if x <= t]
        now.resumed = [x for x in task.resumed if x <= t]
        rec.trans()
        expect_eq(now.get_task_active_time(t), sum(running[:t - start]), 'active time of a task running as %r from %d, at %d' % (running, start, t))
    if running[-1]:
        task.end = start + d
        for t in (start + d, start + d + 1, start + d + 5):
            expect_eq(task.get_task_active_time(t), sum(running), 'active time of a task that ran as %r from %d, at %d after its end' % (running, start, t))


# ------------------------------------------------------------------------------------------------------ windows, lags, modes, defaults
def windows(rec, case):
    a, b, c, d, h = case
    rec.state()
    want = {
        'TimeWindow': (tw.TimeWindow(a, b, c, d, h), (a, b, c, d)),
        'ClassicTimeWindow': (tw.ClassicTimeWindow(a, d, h), (a, h, 0, d)),
        'StartFromOnlyTimeWindow': (tw.StartFromOnlyTimeWindow(a, h), (a, h, 0, h)),
        'StartBeforeOnlyTimeWindow': (tw.StartBeforeOnlyTimeWindow(b, h), (0, b, 0, h)),
        'EndFromOnlyTimeWindow': (tw.EndFromOnlyTimeWindow(c, h), (0, h, c, h)),
        'EndBeforeOnlyTimeWindow': (tw.EndBeforeOnlyTimeWindow(d, h), (0, h, 0, d)),
        'StartTimeWindow': (tw.StartTimeWindow(a, b, h), (a, b, 0, h)),
        'EndTimeWindow': (tw.EndTimeWindow(c, d, h), (0, h, c, d)),
        'EmptyTimeWindow': (tw.EmptyTimeWindow(h), (0, h, 0, h)),
    }
    for n, (w, v) in want.items():
        rec.trans()
        expect_eq((w.earliest_start, w.latest_start, w.earliest_end, w.latest_end), v, '%s%r' % (n, case))
    lag = tl.TimeLag(a, b)
    expect_eq((lag.minimum_time_lag, lag.maximum_time_lags), (a, b), 'TimeLag%r' % ((a, b),))
    lag = tl.MaximumOnlyTimeLag(b)
    expect_eq((lag.minimum_time_lag, lag.maximum_time_lags), (0, b), 'MaximumOnlyTimeLag(%r)' % b)
    lag = tl.MinimumOnlyTimeLag(a)
    expect(lag.minimum_time_lag == a and lag.maximum_time_lags >= 10 ** 9, 'MinimumOnlyTimeLag(%r)' % a)


def modes(rec, case):
    needs, rep = case
    rec.state()
    names = ['r1', 'r2', 'r3'][:len(needs)]
    c = md.ConstantModeConsumption(dict(zip(names, needs)))
    v = md.VaryingModeConsumption({r: [n, 0, n + 1] for r, n in zip(names, needs)})
    for r, n in list(zip(names, needs)) + [('other', 0)]:
        for t in range(3):
            rec.trans()
            expect_eq(c.get_resource_need_at_time(r, t), n, 'constant need of %s in %r' % (r, needs))
            expect_eq(v.get_resource_need_at_time(r, t), [n, 0, n + 1][t] if r != 'other' else 0, 'need of %s at %d in %r' % (r, t, needs))
        expect_eq(c.get_resource_need(r), n, 'need of %s in %r' % (r, needs))
    for t in range(3):
        expect_eq(sorted(c.get_non_zero_ressource_need_names(t)), [r for r, n in zip(names, needs) if n > 0], 'resources needed in %r' % (needs,))
        expect_eq(sorted(v.get_non_zero_ressource_need_names(t)), [r for r, n in zip(names, needs) if [n, 0, n + 1][t] > 0],
                  'resources needed at %d in %r' % (t, needs))
    expect_eq(sorted(c.get_ressource_names()), names, 'resources of %r' % (needs,))
    expect_eq(sorted(v.get_ressource_names()), names, 'resources of %r' % (needs,))


def descriptions(rec, case):
    kind, edges, cal, renew = case
    ids = (5, 2, 9)
    single = kind.startswith('SingleMode')
    succ = {t: [] for t in ids}
    for a, b in edges:
        succ[ids[a]].append(ids[b])
    mds = {t: {1: {'r1': i, 'r2': 2 - i}} for i, t in enumerate(ids)}
    if not single:
        mds[2][3] = {'r1': 4}
    spec = {'tasks': ids, 'succ': succ, 'types': ['r1', 'r2'], 'res': {'r1': list(cal) if 'Calendar' in kind else cal[0], 'r2': 3},
            'renew': {'r1': True, 'r2': renew}, 'modes': mds, 'dur': {t: {m: t + m for m in mds[t]} for t in ids}, 'horizon': 17,
            'unit_costs': {'r1': 1., 'r2': 3.}, 'mode_costs': {t: {m: t * m for m in mds[t]} for t in ids}}
    dom = R.make(kind, spec)
    spec = dom.spec
    lab = lambda x: '%s %r: %s' % (kind, case[1:], x)
    rec.state()
    anc = spec['anc']
    expect_eq({t: sorted(v) for t, v in dom.get_successors().items()}, {t: sorted(v) for t, v in succ.items()}, lab('successors'))
    expect_eq({t: sorted(v) for t, v in dom.get_predecessors().items()}, {t: sorted(v) for t, v in spec['preds'].items()}, lab('predecessors'))
    for t in ids:
        expect_eq(sorted(dom.get_successors_task(t)), sorted(succ[t]), lab('successors of %d' % t))
        expect_eq(sorted(dom.get_predecessors_task(t)), sorted(spec['preds'][t]), lab('predecessors of %d' % t))
        expect_eq(set(dom.full_predecessors[t]), anc[t], lab('ancestors of %d' % t))
        expect_eq(set(dom.full_successors[t]), {u for u in ids if t in anc[u]}, lab('descendants of %d' % t))
        expect_eq(set(dom.get_task_modes(t)), set(mds[t]), lab('modes of %d' % t))
        expect_eq(bool(dom.get_task_preemptivity()[t]), False, lab('preemptivity'))
        w = dom.get_time_window()[t]
        expect_eq((w.earliest_start, w.latest_start, w.earliest_end, w.latest_end), (0, 17, 0, 17), lab('time window'))
        for m in mds[t]:
            rec.trans()
            expect_eq(sorted(dom.get_ressource_names_for_task_mode(t, m)), sorted(mds[t][m]), lab('resources of %d in mode %d' % (t, m)))
            for r in ('r1', 'r2'):
                expect_eq(dom.get_task_consumption(t, m, r, 0), mds[t][m].get(r, 0), lab('consumption of %d in mode %d' % (t, m)))
            expect_eq(dom.get_task_duration(t, m), t + m, lab('duration'))
            if 'WithCost' in kind:
                expect_eq(dom.get_mode_costs()[t][m], t * m, lab('mode cost'))
            else:
                expect_eq(dom.get_mode_costs()[t][m], 0., lab('mode cost'))
            expect_eq(abs(dom.get_task_progress(t, 3, 5, m) - 2. / (t + m)) < 1e-9, True, lab('progress of %d in mode %d' % (t, m)))
            expect_eq(abs(dom.get_task_progress(t, 3, 5, m, 8) - .25) < 1e-9, True, lab('progress of %d, given its duration' % t))
            expect_eq(dom.get_task_progress(t, 3, 4, m, 0), 1, lab('progress of a task without duration'))
    for r in ('r1', 'r2'):
        expect_eq(bool(dom.is_renewable(r)), renew or r == 'r1' or single, lab('renewability of %s' % r))
        expect_eq(bool(dom.get_resource_renewability()[r]), renew or r == 'r1' or single, lab('renewability of %s' % r))
        expect_eq(dom.get_resource_cost_per_time_unit()[r], spec['unit_costs'][r] if 'WithCost' in kind else 0., lab('unit cost of %s' % r))
        for t in range(5):
            rec.trans()
            expect_eq(dom.sample_quantity_resource(r, t), R.qty(spec, r, t), lab('quantity of %s at %d' % (r, t)))
            expect_eq(dom.get_quantity_resource(r, t), R.qty(spec, r, t), lab('quantity of %s at %d' % (r, t)))
    expect_eq(dom.get_max_horizon(), 17, lab('horizon'))
    expect_eq(dom.check_unique_resource_names(), True, lab('unique names'))
    expect_eq(dict(dom.get_preallocations()), {}, lab('preallocations'))
    expect_eq(dict(dom.get_time_lags()), {}, lab('time lags'))
    expect_eq(bool(dom.get_variable_resource_consumption()), False, lab('variable consumption'))
    ref = R.Ref(spec)
    # for every set of completed tasks
    for n in range(4):
        for done in itertools.combinations(ids, n):
            s = dom.get_initial_state().copy()
            for t in done:
                s.tasks_remaining.remove(t)
                s.tasks_complete.add(t)
            rec.trans()
            want = [t for t in ids if t not in done and all(p in done for p in spec['preds'][t])]
            expect_eq(sorted(dom.task_possible_to_launch_precedence(s)), sorted(want), lab('tasks possible after %r' % (done,)))
            expect_eq(sorted(dom.task_modes_possible_to_launch(s)), sorted((t, m) for t in want for m in mds[t]),
                      lab('tasks and modes possible after %r' % (done,)))


def defaults(rec, case):
    """What is said of a problem without precedence, types, units, skills, preemption, costs..., whatever its tasks."""
    ids, box, types, units = case
    tasks = list(ids) if box == 'list' else set(ids) if box == 'set' else {t: None for t in ids}
    base = (pr.WithoutPrecedence, pe.WithoutPreemptivity, rc.WithoutResourceCosts, rc.WithoutModeCosts, RenewableOnly, ct.WithoutConditionalTasks,
            pa.WithoutPreallocations, sk.WithoutResourceSkills, tl.WithoutTimeLag, tw.WithoutTimeWindow, md.SingleMode, rco.ConstantResourceConsumption,
            ra.WithoutResourceAvailabilityChange, td.DeterministicTaskDuration)
    base += (rt.WithoutResourceTypes,) if types is None else (rt.WithResourceTypes,)
    base += (rt.WithoutResourceUnit,) if units is None else (rt.SingleResourceUnit,) if units == 'single' else (rt.WithResourceUnits,)
    more = {'_get_task_duration': lambda self, task, mode=1, progress_from=0.: 2, '_get_tasks_ids': lambda self: tasks, '_get_tasks_mode': lambda self: {t: md.ConstantModeConsumption({'r': t}) for t in ids},
            'get_max_horizon': lambda self: 13, '_get_original_quantity_resource': lambda self, resource, **kw: 3 + len(resource)}
    if types is not None:
        more['_get_resource_types_names'] = lambda self: list(types)
    if units not in (None, 'single'):
        more['_get_resource_units_names'] = lambda self: list(units)
        more['_get_resource_type_for_unit'] = lambda self: {u: types[0] for u in units} if types else {}
    d = type('D', base, more)()
    names = list(types or ()) + (['single_resource'] if units == 'single' else list(units or ()))
    rec.state()
    lab = lambda x: '%r: %s' % (case, x)
    for _ in range(2):
        expect_eq(d.get_successors(), {t: [] for t in ids}, lab('successors'))
        expect_eq(d.get_predecessors(), {t: [] for t in ids}, lab('predecessors'))
        for t in ids:
            expect_eq((list(d.get_successors_task(t)), list(d.get_predecessors_task(t))), ([], []), lab('neighbours of %r' % t))
            expect_eq(d.get_task_consumption(t, 1, 'r', 0), t, lab('consumption of %r' % t))
        g = d.compute_graph()
        expect_eq((sorted(g.nodes_name), list(g.get_edges())), (sorted(ids), []), lab('graph'))
        expect_eq({t: bool(v) for t, v in d.get_task_preemptivity().items()}, {t: False for t in ids}, lab('preemptivity'))
        expect_eq(d.get_task_resuming_type(), {t: pe.ResumeType.NA for t in ids}, lab('resuming'))
        expect_eq({t: bool(v) for t, v in d.get_task_paused_non_renewable_resource_returned().items()}, {t: True for t in ids}, lab('resources of paused tasks'))
        expect_eq({t: (w.earliest_start, w.latest_start, w.earliest_end, w.latest_end) for t, w in d.get_time_window().items()}, {t: (0, 13, 0, 13) for t in ids}, lab('windows'))
        expect_eq({t: sorted(m) for t, m in d.get_tasks_modes().items()}, {t: [1] for t in ids}, lab('modes'))
        expect_eq(d.get_mode_costs(), {t: {1: 0.} for t in ids}, lab('mode costs'))
        expect_eq((list(d.get_resource_types_names()), list(d.get_resource_units_names())), (list(types or ()), names[len(types or ()):]), lab('resources'))
        expect_eq(d.get_resource_type_for_unit(), {u: types[0] for u in units} if types and units not in (None, 'single') else {}, lab('types of units'))
        expect_eq(d.get_resource_cost_per_time_unit(), {r: 0. for r in names}, lab('costs'))
        expect_eq({r: bool(v) for r, v in d.get_resource_renewability().items()}, {r: True for r in names}, lab('renewability'))
        for r in names:
            expect(d.is_renewable(r), lab('renewability of %s' % r))
            for t in (0, 4):
                expect_eq((d.get_quantity_resource(r, t), d.sample_quantity_resource(r, t)), (3 + len(r), 3 + len(r)), lab('quantity of %s' % r))
        expect_eq(tuple(map(dict, (d.get_preallocations(), d.get_time_lags(), d.get_all_resources_skills(), d.get_all_tasks_skills(), d.get_task_on_completion_added_conditions(), d.get_task_existence_conditions()))),
                  ({},) * 6, lab('nothing declared'))
        for t in ids:
            expect(d.check_if_skills_are_fulfilled(t, 1, {r: 1 for r in names}), lab('skills'))
        rec.trans()


def skill_names(rec, case):
    """Names, resources and tasks of every small skill table (a skill may be known to tasks or to resources only)."""
    res, tasks = case
    names = ('r1', 'u1', 'u2')
    rs = {r: {k: v for k, v in zip('ST', lv) if v is not None} for r, lv in zip(names, res)}
    ts = {1: {1: {k: v for k, v in zip('SU', tasks[0]) if v is not None}}, 2: {1: {}, 3: {k: v for k, v in zip('TU', tasks[1]) if v is not None}}}
    rec.state()

    class X(sk.WithResourceSkills):
        def _get_all_resources_skills(self):
            return {r: dict(d) for r, d in rs.items()}

        def _get_all_tasks_skills(self):
            return {t: {m: dict(d) for m, d in ms.items()} for t, ms in ts.items()}

        def get_resource_units_names(self):
            return ['u1', 'u2']
    x = X()
    expect_eq(set(x.get_skills_names()), {k for d in rs.values() for k in d} | {k for ms in ts.values() for d in ms.values() for k in d},
              'skill names of %r' % (case,))
    for r in names:
        expect_eq(dict(x.get_skills_of_resource(r)), rs[r], 'skills of %s in %r' % (r, case))
    for t, ms in ts.items():
        for m, d in ms.items():
            rec.trans()
            want = {k: v for k, v in d.items() if v > 0}
            expect_eq(dict(x.get_skills_of_task(t, m)), want, 'skills of task %d in mode %d of %r' % (t, m, case))
            able = [u for u in ('u1', 'u2') if all(rs[u].get(k, 0) >= v for k, v in want.items())]
            expect_eq(list(x.find_one_ressource_to_do_one_task(t, m)), able if want else [None], 'units able to do task %d in mode %d of %r' % (t, m, case))
            for n in range(4):
                for c in itertools.combinations(names, n):
                    for qty in (1, 2):
                        use = {r: (qty if r == 'r1' else 1) if r in c else 0 for r in names}
                        expect_eq(bool(x.check_if_skills_are_fulfilled(t, m, use)), all(sum(rs[r].get(k, 0) for r in c) >= v for k, v in want.items()),
                                  'skills of %r for task %d in mode %d of %r' % (use, t, m, case))


def unique_names(rec, case):
    types, units = case
    rec.state()

    class X(ra.UncertainResourceAvailabilityChanges, rt.WithResourceTypes, rt.WithResourceUnits):
        def _get_resource_types_names(self):
            return list(types)

        def _get_resource_units_names(self):
            return list(units)
    names = list(types) + list(units)
    expect_eq(bool(X().check_unique_resource_names()), len(names) > 0 and len(set(names)) == len(names), 'unique names of %r' % (case,))


def conditions(rec, case):
    """Existence of conditional tasks under every set of conditions; joint distribution of added conditions."""
    conds, exist = case
    ids = (1, 2, 3)
    spec = {'tasks': ids, 'succ': {t: [] for t in ids}, 'types': ['r1'], 'res': {'r1': 1}, 'modes': {t: {1: {'r1': 1}} for t in ids},
            'dur': {t: {1: 1} for t in ids}, 'horizon': 3, 'conds': conds, 'exist': exist}
    dom = R.make('SingleModeRCPSP_Stochastic_Durations_WithConditionalTasks', spec)
    lab = 'conditional tasks %r' % (case,)
    expect_eq(set(dom.get_all_unconditional_tasks()), {t for t in ids if not exist.get(t)}, lab + ': unconditional')
    for n in range(4):
        for cur in itertools.combinations('ABC', n):
            s = dom.get_initial_state().copy()
            s._current_conditions |= set(cur)
            rec.state()
            expect_eq(set(dom.get_available_tasks(s)), {t for t in ids if all(c in cur for c in exist.get(t, []))}, lab + ': available under %r' % (cur,))
    for t, ds in conds.items():
        want = {}
        for c in itertools.product(*ds):
            p = 1.
            for _, q in c:
                p *= q
            k = tuple(x for x, _ in c)
            want[k] = want.get(k, 0.) + p
        same_dist(_dist_of(lambda: tuple(dom.sample_completion_conditions(t))), want, lab + ': conditions sampled')

        def add():
            s = dom.get_initial_state().copy()
            s._current_conditions.add('Z')
            dom.add_to_current_conditions(t, s)
            return frozenset(s._current_conditions)
        w2 = {}
        for k, p in want.items():
            w2[frozenset(k) | {'Z'}] = w2.get(frozenset(k) | {'Z'}, 0.) + p
        same_dist(_dist_of(add), w2, lab + ': conditions added')
        rec.trans(2)


def build(ck):
    ck.rule = 'all small graphs, distributions, request sequences, run/pause patterns, windows, modes, domain descriptions, condition sets against direct definitions'
    ck.scope = ('all digraphs of 3 nodes (two namings) and 4 nodes, 6 duration models, request sequences up to 3 (4 in depth), run patterns up to '
                '7 time units, 5 domain families x all DAGs over 3 tasks x calendars')
    ck.run(graph_cases(), graphs, 'graphs', chunk=64)
    dur = [('uniform', (a, b)) for a in range(4) for b in range(a, 5)] + [('deterministic', d) for d in range(4)]
    for k in ('enumerable', 'univariate', 'multivariate'):
        dur += [(k, a) for a in ([(1, 1.)], [(1, .25), (3, .75)], [(4, .5), (2, .25), (3, .25)], [(1, .5), (0, .5)])]
    ck.run(dur, durations, 'durations')
    reqs = [(f, t, m, p) for f in ('sample_task_duration', 'get_latest_sampled_duration') for t, m, p in ((1, 1, 0.), (1, 2, 0.), (2, 1, 0.), (1, 1, 0.5))]
    ck.run([o for n in range(1, 5 if THOROUGH else 4) for o in itertools.product(reqs, repeat=n)], simulated, 'simulated durations', chunk=64)
    ck.run([(r, s, p) for n in range(0, 8 if not THOROUGH else 11) for r in itertools.product((1, 0), repeat=n) for s in (0, 3) for p in (0, 4)], active, 'active time', chunk=64)
    ck.run([(a, b, c, d, 50) for a in (0, 3) for b in (5, 9) for c in (2, 7) for d in (11, 13)] + [(1, 2, 3, 4, 9)], windows, 'windows and lags')
    ck.run([(n, 0) for k in (1, 2, 3) for n in itertools.product((0, 1, 3), repeat=k)], modes, 'modes')
    from checks.c10_scheduling import DAGS3
    ck.run([(k, e, c, r) for k in ('SingleModeRCPSP', 'SingleModeRCPSPCalendar', 'MultiModeRCPSP', 'MultiModeRCPSPWithCost', 'MultiModeRCPSPCalendar')
            for e in DAGS3 + [((1, 0),), ((2, 1), (1, 0))] for c in ((2, 2), (4, 0, 3)) for r in (True, False)], descriptions, 'descriptions')
    ck.run([(i, b, t, u) for n in range(4) for i in itertools.permutations((0, 3, 7), n) for b in ('list', 'set', 'dict') for t in (None, ('x',), ('y', 'x'))
            for u in (None, 'single', ('u',), ('v', 'u'))], defaults, 'defaults', chunk=16)
    ck.run([(a, b) for a in (('x',), ('x', 'y'), ('x', 'x'), ()) for b in ((), ('x',), ('u', 'v'), ('u', 'u'))], unique_names, 'names')
    lv = [(None, None), (1, None), (0, 2), (2, 1)]
    ck.run([(r, t) for r in itertools.product(lv, repeat=3) for t in itertools.product([(None, None), (1, None), (2, 1), (0, 3)], repeat=2)],
           skill_names, 'skills', chunk=64)
    cds = [{1: [[('A', .25), ('B', .75)]]}, {1: [[('A', .5), ('B', .5)], [('C', .2), ('A', .8)]], 2: [[('C', 1.)]]}]
    ck.run([(c, e) for c in cds for e in ({3: ['A']}, {3: ['A', 'C']}, {2: [], 3: ['B', 'C', 'A']}, {1: ['A'], 2: ['B'], 3: ['C']})], conditions, 'conditions')
    ck.sample({'graph': 'edges 3->1, 1->2 over nodes (3, 1, 2)'})
