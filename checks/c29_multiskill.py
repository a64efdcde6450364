"""C29: multi-skill project scheduling: validity, schedule generation, encodings, left shifts and IMOPSE files."""
import itertools
import os
import tempfile
from copy import deepcopy
from checks import mipstand  # noqa
from checks import nogurobi  # noqa
from checks import rcpspref as P
from checks.c25_models import data_free
from mc.core import expect, expect_eq, THOROUGH
with data_free():
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill as X
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill_parser as F
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers import lns_post_process_rcpsp as L
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (
    get_default_objective_setup, ParamsObjectiveFunction, ObjectiveHandling, ModeOptim)
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage


# ---------------------------------------------------------------- instances and their reference

def instance(tasks, succ, modes, emp, res=None, nr=(), H=10, one=False, length=None, days=None):
    """modes: {task: {mode: (duration, {skill or resource: amount})}}, emp: {employee: ({skill: level}, [dates off])}, res: {r: amount or list}"""
    length = length or H
    skills = sorted({s for sk, _ in emp.values() for s in sk} | {'a', 'b'})
    res = {r: ([q] * length if isinstance(q, int) else list(q)) for r, q in (res or {}).items()}
    full = {t: {m: dict({'duration': d}, **{**{r: 0 for r in res}, **need}) for m, (d, need) in ms.items()} for t, ms in modes.items()}
    return {'tasks': tasks, 'succ': succ, 'modes': full, 'res': res, 'nr': list(nr), 'H': H, 'one': one, 'skills': skills,
            'emp': {e: (dict(sk), [t not in off for t in range(days or length)]) for e, (sk, off) in emp.items()}}


def project(durs, edges, needs, emp, **kw):
    """real tasks 2..n+1 with one mode"""
    n = len(durs)
    multi = {i + 2: ({1: (durs[i], needs[i])} if not isinstance(durs[i], dict) else durs[i]) for i in range(n)}
    return graph(multi, edges, emp, **kw)


def graph(modes, edges, emp, **kw):
    n = len(modes)
    tasks = list(range(1, n + 3))
    succ = {t: [] for t in tasks}
    for a, b in edges:
        succ[a].append(b)
    for t in range(2, n + 2):
        if not any(t in s for s in succ.values()):
            succ[1].append(t)
    for t in range(2, n + 2):
        if not succ[t]:
            succ[t].append(n + 2)
    modes = dict(modes)
    modes[1] = {1: (0, {})}
    modes[n + 2] = {1: (0, {})}
    return instance(tasks, succ, {t: modes[t] for t in tasks}, emp, **kw)


def model(inst, variant=False):
    Cl = X.MS_RCPSPModel_Variant if variant else X.MS_RCPSPModel
    return Cl(skills_set=set(inst['skills']), resources_set=set(inst['res']), non_renewable_resources=set(inst['nr']),
              resources_availability=deepcopy(inst['res']),
              employees={e: X.Employee({s: X.SkillDetail(v, 1., 1.) for s, v in sk.items()}, list(cal), salary=float(i + 1))
                         for i, (e, (sk, cal)) in enumerate(inst['emp'].items())},
              employees_availability=[len(inst['emp'])] * inst['H'], mode_details=deepcopy(inst['modes']), successors=deepcopy(inst['succ']),
              horizon=inst['H'], one_unit_per_task_max=inst['one'])


def needs(inst, modes, t):
    return {s: inst['modes'][t][modes[t]][s] for s in inst['skills'] if inst['modes'][t][modes[t]].get(s, 0) > 0}


def dur(inst, modes, t):
    return inst['modes'][t][modes[t]]['duration']


def valid(inst, modes, starts, use):
    """use: {task: {employee: set of skills}}"""
    if set(starts) != set(inst['tasks']):
        return False
    span = {t: range(starts[t], starts[t] + dur(inst, modes, t)) for t in inst['tasks']}
    for t in inst['tasks']:
        for s, q in needs(inst, modes, t).items():
            if sum(inst['emp'][e][0].get(s, 0) for e, used in use.get(t, {}).items() if s in used) < q:
                return False
        for e in use.get(t, {}):
            cal = inst['emp'][e][1]
            if not all(d < len(cal) and cal[d] for d in span[t]):
                return False
    for a, b in itertools.combinations(inst['tasks'], 2):
        if set(span[a]) & set(span[b]) and set(use.get(a, {})) & set(use.get(b, {})):
            return False
    for r, q in inst['res'].items():
        if r in inst['nr']:
            if sum(inst['modes'][t][modes[t]][r] for t in inst['tasks']) > q[0]:
                return False
            continue
        for d in {d for s in span.values() for d in s}:
            if sum(inst['modes'][t][modes[t]][r] for t in inst['tasks'] if d in span[t]) > (q[d] if d < len(q) else 0):
                return False
    return all(starts[b] >= span[a].stop for a in inst['tasks'] for b in inst['succ'][a])


def topological(inst):
    pr = P.preds(inst)
    order = []
    while len(order) < len(inst['tasks']):
        order += [t for t in inst['tasks'] if t not in order and pr[t] <= set(order)]
    return order


def sgs(inst, order, modes, prio):
    """({task: start}, {task: {employee: skills}}), or None when a task would not end before the horizon or a stock is overdrawn"""
    for r in inst['nr']:
        if sum(inst['modes'][t][modes[t]][r] for t in inst['tasks']) > inst['res'][r][0]:
            return None
    pr = P.preds(inst)
    starts, use, busy = {}, {}, set()
    todo = [1] + list(order) + [inst['tasks'][-1]]
    while todo:
        k = next(t for t in todo if not pr[t] & set(todo))
        d = dur(inst, modes, k)
        need = needs(inst, modes, k)
        t = max([0] + [starts[p] + dur(inst, modes, p) for p in pr[k]])
        while True:
            if t + d >= inst['H']:
                return None
            team = team_at(inst, need, range(t, t + d), busy, prio[k] if need else [])
            if team is not None and all(sum(inst['modes'][o][modes[o]][r] for o in starts if starts[o] <= u < starts[o] + dur(inst, modes, o))
                                        + inst['modes'][k][modes[k]][r] <= q[u]
                                        for r, q in inst['res'].items() if r not in inst['nr'] for u in range(t, t + d)):
                break
            t += 1
        starts[k] = t
        if need:
            use[k] = {e: {s for s in need if s in inst['emp'][e][0]} for e in team}
            busy |= {(e, u) for e in team for u in range(t, t + d)}
        todo.remove(k)
    return starts, use


def team_at(inst, need, span, busy, prio):
    free = [e for e in prio if all(inst['emp'][e][1][u] and (e, u) not in busy for u in span)]
    if not need:
        return []
    if inst['one']:
        able = [e for e in free if all(inst['emp'][e][0].get(s, 0) >= q for s, q in need.items())]
        return able[:1] or None
    have = {s: 0 for s in need}
    team = []
    for e in free:
        if all(have[s] >= q for s, q in need.items()):
            break
        if any(s in inst['emp'][e][0] for s in need):
            team.append(e)
            for s in need:
                have[s] += inst['emp'][e][0].get(s, 0)
    return team if all(have[s] >= q for s, q in need.items()) else None


def schedule_of(inst, modes, starts):
    return {t: {'start_time': s, 'end_time': s + dur(inst, modes, t)} for t, s in starts.items()}


def starts_of(sol):
    return {t: v['start_time'] for t, v in sol.schedule.items()}


def usages(inst, modes, t, superfluous=False):
    """every way of assigning employees to the task, each with a set of needed skills they hold"""
    need = needs(inst, modes, t)
    per = []
    for e, (sk, _) in inst['emp'].items():
        own = [s for s in need if s in sk]
        sets = [set(c) for n in range(1, len(own) + 1) for c in itertools.combinations(own, n)]
        if superfluous:
            sets.append(set())
        per.append([None] + sets)
    for combo in itertools.product(*per):
        yield {e: s for e, s in zip(inst['emp'], combo) if s is not None}


E2 = {1: ({'a': 1}, []), 2: ({'a': 1, 'b': 2}, [])}
E3 = {1: ({'a': 1}, []), 2: ({'b': 1}, []), 3: ({'a': 1, 'b': 1}, [])}


# ---------------------------------------------------------------- validity

def g_satisfy():
    I = [project([1, 2], [], [{'a': 1}, {'a': 1}], E2, H=6),
         project([1, 2], [(2, 3)], [{'a': 2}, {'b': 1}], E2, H=6),
         project([2, 1], [], [{'a': 1, 'b': 1}, {'b': 2}], {1: ({'a': 1}, [0]), 2: ({'a': 1, 'b': 2}, [3])}, H=6),
         project([1, 2], [], [{'r': 1}, {'a': 1, 'r': 1}], {1: ({'a': 1}, [])}, res={'r': 1}, H=6),
         project([1, 2], [], [{'r': 1}, {'r': 1}], {1: ({'a': 1}, [])}, res={'r': [2, 1, 0, 2, 2, 2]}, H=6),
         project([1, 1], [], [{'r': 1, 'n': 1}, {'a': 1, 'n': 1}], {1: ({'a': 1}, [])}, res={'r': 1, 'n': 2}, nr=['n'], H=6),
         project([1, 1], [], [{'n': 2}, {'n': 1, 'a': 1}], {1: ({'a': 1}, [])}, res={'r': 1, 'n': 2}, nr=['n'], H=6),
         project([1, 1], [], [{'a': 2}, {'b': 2}], {7: ({'a': 1, 'b': 1}, []), 9: ({'a': 1, 'b': 1}, [1])}, H=6),
         graph({2: {1: (1, {'a': 1}), 2: (2, {'b': 1})}, 3: {1: (1, {'a': 1})}}, [], E2, H=6),
         graph({2: {1: (1, {'n': 1, 'a': 1}), 2: (2, {'n': 2})}, 3: {1: (1, {'a': 1})}}, [], E2, res={'n': 1}, nr=['n'], H=6),
         project([1, 1, 1], [(2, 4)], [{'a': 1}, {'b': 1}, {'a': 1}], E2, H=4),
         project([1, 2], [], [{}, {'a': 1}], E2, H=6, res={'r': 1}, length=3),
         project([1, 1], [], [{'r': 1}, {'a': 1}], {1: ({'a': 1}, [])}, H=6, res={'r': 1}, length=2)]
    return I


def do_satisfy(rec, inst):
    m = model(inst)
    tasks = inst['tasks']
    real = tasks[1:-1]
    T = range(4 if len(real) < 3 else 3)
    for mv in itertools.product(*[sorted(inst['modes'][t]) for t in real]):
        modes = dict(zip(real, mv))
        modes[1] = modes[tasks[-1]] = 1
        uses = [list(usages(inst, modes, t, superfluous=True)) for t in real]
        for st in itertools.product(T, repeat=len(real)):
            starts = dict(zip(real, st))
            starts[1] = 0
            last = max(starts[t] + dur(inst, modes, t) for t in real)
            for sink in {last, last - 1}:
                starts[tasks[-1]] = sink
                for us in itertools.product(*uses):
                    use = {t: u for t, u in zip(real, us)}
                    for drop in ((False, True) if sink == last else (True,)):
                        given = {t: u for t, u in use.items() if u or not drop}
                        sol = X.MS_RCPSPSolution(m, dict(modes), schedule_of(inst, modes, starts), given)
                        rec.trans()
                        expect_eq(bool(m.satisfy(sol)), valid(inst, modes, starts, use), ('satisfy', inst, starts, given))
                    rec.state()
            expect_eq(m.evaluate(sol), {'makespan': sink}, 'evaluate')
            expect_eq(list(m.evaluate_mobj(sol).vector_fitness), [-sink], 'evaluate_mobj')
    # schedules which miss a task, late dates, skills the employee does not hold
    ok = None
    for us in itertools.product(*uses):
        starts = dict(zip(real, range(len(real))))
        for t in topological(inst)[1:-1]:
            starts[t] = max([starts[t]] + [starts[p] + dur(inst, modes, p) for p in P.preds(inst)[t] if p in starts])
        starts[1], starts[tasks[-1]] = 0, max(starts[t] + dur(inst, modes, t) for t in real)
        use = dict(zip(real, us))
        for t in tasks:
            part = {k: v for k, v in starts.items() if k != t}
            sol = X.MS_RCPSPSolution(m, dict(modes), schedule_of(inst, modes, part), use)
            rec.trans()
            expect_eq(bool(m.satisfy(sol)), False, 'missing task')
        for late in (inst['H'] - 1, inst['H'], 40):
            for t in real:
                moved = dict(starts)
                moved[t] = late
                moved[tasks[-1]] = max(moved[x] + dur(inst, modes, x) for x in real)
                sol = X.MS_RCPSPSolution(m, dict(modes), schedule_of(inst, modes, moved), use)
                rec.trans()
                expect_eq(bool(m.satisfy(sol)), valid(inst, modes, moved, use), ('late', inst, moved, use))
        for t in real:
            for e, (sk, _) in inst['emp'].items():
                for s in needs(inst, modes, t):
                    more = deepcopy(use)
                    more[t].setdefault(e, set()).add(s)
                    sol = X.MS_RCPSPSolution(m, dict(modes), schedule_of(inst, modes, starts), more)
                    rec.trans()
                    expect_eq(bool(m.satisfy(sol)), valid(inst, modes, starts, more), ('skills not held', inst, starts, more))
    reg = m.get_objective_register()
    expect_eq(set(reg.dict_objective_to_doc), {'makespan'}, 'objectives registered')
    rec.outcome('satisfy')


# ---------------------------------------------------------------- schedule generation and encodings

def g_sgs():
    I = [project([2, 1], [], [{'a': 1}, {'a': 1}], E3, H=8),
         project([2, 1], [], [{'a': 2}, {'b': 1}], E3, H=8),
         project([1, 2], [], [{'a': 2, 'b': 1}, {'a': 1}], {1: ({'a': 2}, [0]), 2: ({'a': 1, 'b': 1}, [2]), 3: ({'b': 1}, [])}, H=9),
         project([2, 1], [(2, 3)], [{'a': 1, 'b': 1}, {'b': 1}], {1: ({'a': 1}, [1, 2]), 2: ({'b': 1}, []), 3: ({'c': 1}, [])}, H=9),
         project([2, 2], [], [{'a': 1, 'r': 1}, {'b': 1, 'r': 1}], E3, res={'r': [1, 2, 1, 0, 1, 1, 1, 1, 1]}, H=9),
         project([1, 1], [], [{'a': 1, 'n': 1}, {'n': 1}], E2, res={'n': 2, 'r': 1}, nr=['n'], H=5),
         project([1, 1], [], [{'a': 1, 'n': 2}, {'n': 1}], E2, res={'n': 2}, nr=['n'], H=5),
         project([2, 2], [], [{'a': 1}, {'a': 1}], {1: ({'a': 1}, []), 2: ({'b': 1}, [])}, H=4),
         project([2, 2], [], [{'a': 1}, {'a': 1}], {1: ({'a': 1}, []), 2: ({'b': 1}, [])}, H=5),
         project([1, 1], [], [{'a': 1}, {'b': 1}], {1: ({'a': 1}, [0, 1, 2, 3, 4]), 2: ({'b': 1}, [])}, H=5),
         graph({2: {1: (1, {'a': 1}), 2: (3, {'b': 1}), 3: (2, {'r': 1})}, 3: {1: (2, {'a': 1, 'r': 1}), 2: (1, {'a': 1, 'b': 1})}}, [], E2,
               res={'r': 1}, H=9),
         graph({2: {1: (1, {'a': 1, 'n': 2}), 2: (3, {'b': 1, 'n': 1})}, 3: {1: (2, {'a': 1, 'n': 1})}}, [(2, 3)], E2, res={'n': 2}, nr=['n'], H=9),
         # tasks without duration consume the stocks too
         project([1, 0], [], [{'a': 1, 'n': 1}, {'n': 2}], E2, res={'n': 2, 'r': 1}, nr=['n'], H=5),
         project([0, 1, 2], [(2, 3)], [{'n': 1}, {'n': 1, 'a': 1}, {'r': 1}], E2, res={'n': 2, 'r': 1}, nr=['n'], H=5),
         graph({2: {1: (1, {'a': 1, 'n': 1}), 2: (0, {'n': 2})}, 3: {1: (2, {'a': 1, 'n': 1})}}, [(2, 3)], E2, res={'n': 2}, nr=['n'], H=6),
         project([2, 1, 1], [(2, 4)], [{'a': 1}, {'a': 1}, {'b': 1}], E2, H=9),
         project([1, 2, 1], [], [{'a': 2}, {'b': 2}, {}], E2, H=9),
         project([1, 2, 2], [(2, 4), (3, 4)], [{'a': 1, 'r': 1}, {'a': 1, 'r': 1}, {'b': 1}], E2, res={'r': [1] * 4 + [2] * 5}, H=9),
         # one worker per task
         project([2, 1], [], [{'a': 1}, {'b': 1}], E3, H=8, one=True),
         project([2, 2], [], [{'a': 1, 'b': 1}, {'a': 1}], {1: ({'a': 1, 'b': 1}, [1]), 2: ({'a': 2, 'b': 1}, [0]), 3: ({'a': 1}, [])}, H=9, one=True),
         project([1, 1], [], [{'a': 2}, {'a': 2}], {1: ({'a': 1, 'b': 3}, []), 2: ({'a': 2}, []), 3: ({'a': 3}, [0])}, H=8, one=True),
         project([1, 1], [], [{'a': 2}, {'a': 1}], {1: ({'a': 1}, []), 2: ({'a': 1}, [])}, H=8, one=True),
         # employees of any name
         project([1, 2], [], [{'a': 1}, {'a': 1}], {5: ({'a': 1}, []), 3: ({'a': 1, 'b': 1}, [0]), 8: ({'b': 1}, [])}, H=8),
         project([1, 2], [], [{'a': 1}, {'b': 1}], {'x': ({'a': 1}, [0]), 'y': ({'a': 1, 'b': 1}, []), 'w': ({'b': 1}, [])}, H=8)]
    if THOROUGH:
        for d in itertools.product((1, 2), repeat=3):
            for edges in ([], [(2, 3)], [(2, 4), (3, 4)], [(3, 2)], [(4, 2), (4, 3)]):
                for need in (({'a': 1}, {'b': 1}, {'a': 2}), ({'a': 1, 'b': 1}, {'r': 1}, {'b': 2}), ({'a': 1}, {'a': 1}, {'a': 1})):
                    I.append(project(list(d), edges, list(need), {1: ({'a': 1}, [1]), 2: ({'a': 1, 'b': 2}, [3])}, res={'r': 1}, H=9))
    return I


def worker_orders(inst, n):
    E = list(inst['emp'])
    orders = [list(p) for p in itertools.permutations(E)]
    if len(orders) ** n <= 40:
        yield from itertools.product(orders, repeat=n)
        return
    for i in range(len(orders)):
        yield tuple(orders[(i + j) % len(orders)] for j in range(n))
        yield tuple(orders[i] for j in range(n))


def do_sgs(rec, inst):
    m = model(inst, variant=True)
    tasks = inst['tasks']
    real = tasks[1:-1]
    n = len(real)
    reg = m.get_attribute_register().dict_attribute_to_type
    expect_eq((reg['priority_list_task']['n'], list(reg['modes_arrity_fix']['arrities']), reg['priority_worker_per_task_perm']['n']),
              (n, [len(inst['modes'][t]) for t in real], n * len(inst['emp'])), 'register')
    before = deepcopy((m.resources_availability, {e: m.employees[e].calendar_employee for e in m.employees}, m.mode_details))
    for perm in itertools.permutations(range(n)):
        for mv in itertools.product(*[sorted(inst['modes'][t]) + [9] for t in real]):
            for pw in worker_orders(inst, n):
                modes = {t: (k if k in inst['modes'][t] else 1) for t, k in zip(real, mv)}
                modes[1] = modes[tasks[-1]] = 1
                ref = sgs(inst, [p + 2 for p in perm], modes, dict(zip(real, pw)))
                sol = X.MS_RCPSPSolution_Variant(m, modes_vector=list(mv), priority_list_task=list(perm), priority_worker_per_task=[list(p) for p in pw])
                rec.state()
                judge(rec, inst, m, sol, ref, modes, (perm, mv, pw))
                other = X.MS_RCPSPSolution_Variant(m, modes_vector_from0=[k - 1 for k in mv], priority_list_task=list(perm),
                                                   priority_worker_per_task=[list(p) for p in pw])
                expect_eq((other.schedule, other.employee_usage, other.modes_vector), (sol.schedule, sol.employee_usage, list(mv)), 'modes from 0')
                expect_eq(sol.modes_vector_from0, [k - 1 for k in mv], 'modes vector from 0')
                copy = sol.copy()
                judge(rec, inst, m, copy, ref, modes, ('copy', perm, mv, pw))
                # the copy is independent
                copy.priority_list_task.reverse()
                copy.modes_vector[0] = 1
                for p in copy.priority_worker_per_task:
                    p.reverse()
                copy.schedule.clear()
                judge(rec, inst, m, sol, ref, modes, ('original', perm, mv, pw))
                # a changed copy is scheduled anew
                if ref is not None:
                    changed = sol.copy()
                    changed.priority_list_task = list(reversed(perm))
                    m.evaluate(changed)
                    judge(rec, inst, m, changed, sgs(inst, [p + 2 for p in reversed(perm)], modes, dict(zip(real, pw))), modes, ('changed', perm, mv, pw))
    expect_eq(deepcopy((m.resources_availability, {e: m.employees[e].calendar_employee for e in m.employees}, m.mode_details)), before,
              'the model is left as it was')
    dummy = m.get_dummy_solution()
    one = {t: 1 for t in tasks}
    judge(rec, inst, m, dummy, sgs(inst, real, one, {t: list(inst['emp']) for t in real}), one, 'dummy')


def judge(rec, inst, m, sol, ref, modes, what):
    val = m.evaluate(sol)
    rec.trans()
    if ref is None:
        expect(val['makespan'] >= inst['H'], ('makespan of a failed schedule', inst, what, val))
        expect(not m.satisfy(sol), ('failed schedule accepted', inst, what))
        rec.outcome('fails')
        return
    expect_eq((starts_of(sol), sol.employee_usage), ref, ('schedule', inst, what))
    expect_eq(sol.schedule, schedule_of(inst, modes, ref[0]), ('ends', inst, what))
    expect_eq(sol.modes, modes, ('modes', inst, what))
    expect_eq(val, {'makespan': ref[0][inst['tasks'][-1]]}, ('makespan', inst, what))
    expect(m.satisfy(sol), ('satisfy', inst, what))
    expect(valid(inst, modes, *ref), ('reference', inst, what))
    rec.outcome('schedules')


def do_encodings(rec, inst):
    m = model(inst, variant=True)
    tasks = inst['tasks']
    real = tasks[1:-1]
    n = len(real)
    E = list(inst['emp'])
    perms = [list(p) for p in itertools.permutations(range(n))]
    mvs = [list(v) for v in itertools.product(*[sorted(inst['modes'][t]) for t in real])]
    flats = [list(p) for p in itertools.permutations(range(n * len(E)))]
    if len(flats) > 720:
        flats = flats[::max(1, len(flats) // 90)]

    def split(flat):
        out = []
        for i in range(n):
            part = flat[i * len(E):(i + 1) * len(E)]
            out.append([E[sorted(part).index(x)] for x in part])
        return out
    flat_default = list(range(n * len(E)))

    def ref(perm, mv, pw):
        modes = dict(zip(real, mv))
        modes[1] = modes[tasks[-1]] = 1
        r = sgs(inst, [p + 2 for p in perm], modes, dict(zip(real, pw)))
        return r and r[0][tasks[-1]]

    def value(v, enc, r, what):
        got = m.evaluate_from_encoding(v, enc)
        rec.trans()
        if r is None:
            expect(got['makespan'] >= inst['H'], (what, got))
        else:
            expect_eq(got, {'makespan': r}, what)

    for perm, mv, flat in itertools.product(perms[::max(1, len(perms) // 3)], mvs[::max(1, len(mvs) // 3)], flats[::max(1, len(flats) // 3)]):
        sol = X.MS_RCPSPSolution_Variant(m, modes_vector=list(mv), priority_list_task=list(perm), priority_worker_per_task=list(flat))
        expect_eq([list(p) for p in sol.priority_worker_per_task], split(flat), 'ranks of the employees')
        # fixed parts come from the solution
        m.fixed_modes = m.fixed_permutation = m.fixed_priority_worker_per_task = None
        for enc in ('modes_arrity_fix', 'priority_list_task', 'priority_worker_per_task_perm'):
            m.set_fixed_attributes(enc, sol)
        expect_eq((m.fixed_modes, m.fixed_permutation, m.fixed_priority_worker_per_task), (mv, perm, split(flat)), 'fixed attributes')
        m.fixed_modes = None
        m.set_fixed_attributes('modes_arrity_fix_from_0', sol)
        expect_eq(m.fixed_modes, mv, 'fixed modes from 0')
        m.fixed_modes = None
        m.set_fixed_attributes('modes_vector', sol)
        expect_eq(m.fixed_modes, mv, 'fixed modes')
        # fixed again: the last ones count
        o = X.MS_RCPSPSolution_Variant(m, modes_vector=list(mvs[-1]), priority_list_task=list(perms[-1]), priority_worker_per_task=list(flats[-1]))
        for enc in ('modes_arrity_fix', 'priority_list_task', 'priority_worker_per_task_perm'):
            m.set_fixed_attributes(enc, o)
        expect_eq((m.fixed_modes, m.fixed_permutation, m.fixed_priority_worker_per_task), (mvs[-1], perms[-1], split(flats[-1])), 'attributes fixed again')
        m.set_fixed_attributes('modes_arrity_fix_from_0', sol)
        m.set_fixed_attributes('priority_list_task', sol)
        expect_eq((m.fixed_modes, m.fixed_permutation, m.fixed_priority_worker_per_task), (mv, perm, split(flats[-1])), 'some attributes fixed again')
        m.set_fixed_priority_worker_per_task_from_permutation(flat)
        expect_eq(m.fixed_priority_worker_per_task, split(flat), 'fixed from permutation')
        rec.state()
        for p in perms:
            value(list(p), 'priority_list_task', ref(p, mv, split(flat)), ('priority_list_task', inst, p, mv, flat))
        for v in mvs:
            value(list(v), 'modes_vector', ref(perm, v, split(flat)), ('modes_vector', inst, perm, v, flat))
            value([k - 1 for k in v], 'modes_vector_from0', ref(perm, v, split(flat)), ('modes_vector_from0', inst, perm, v, flat))
        for f in flats[::5]:
            value(list(f), 'priority_worker_per_task', ref(perm, mv, split(f)), ('priority_worker_per_task', inst, perm, mv, f))
        # missing parts are the fixed ones
        s = X.MS_RCPSPSolution_Variant(m)
        r = ref(perm, mv, split(flat))
        expect_eq((s.modes_vector, s.priority_list_task, s.priority_worker_per_task), (mv, perm, split(flat)), 'defaults')
        if r is not None:
            expect_eq(m.evaluate(s), {'makespan': r}, 'default solution')


def do_models(rec, inst):
    """copies, variants, graph and representative of the model"""
    m = model(inst)
    for q in (m.copy(), m.to_variant_model(), model(inst, variant=True)):
        rec.trans()
        expect_eq((q.horizon, q.horizon_multiplier, q.source_task, q.sink_task, q.one_unit_per_task_max, q.tasks, q.nb_tasks, q.n_jobs_non_dummy),
                  (inst['H'], 1, 1, inst['tasks'][-1], inst['one'], inst['tasks'], len(inst['tasks']), len(inst['tasks']) - 2), 'attributes')
        expect_eq((q.mode_details, q.successors, q.resources_availability, set(q.skills_set), set(q.resources_set), set(q.non_renewable_resources)),
                  (inst['modes'], inst['succ'], inst['res'], set(inst['skills']), set(inst['res']), set(inst['nr'])), 'data')
        expect_eq({e: (w.calendar_employee, {s: d.skill_value for s, d in w.dict_skill.items()}, w.salary) for e, w in q.employees.items()},
                  {e: (cal, sk, float(i + 1)) for i, (e, (sk, cal)) in enumerate(inst['emp'].items())}, 'employees')
    expect(isinstance(m.to_variant_model(), X.MS_RCPSPModel_Variant), 'variant')
    # sources and sinks of any name, other horizons
    n = len(inst['tasks'])
    for Cl in (X.MS_RCPSPModel, X.MS_RCPSPModel_Variant):
        a = Cl(set(), set(), set(), {}, {}, [], {t: {1: {'duration': 1}} for t in range(1, 5)}, {t: [] for t in range(1, 5)}, 7, horizon_multiplier=3,
               sink_task=3, source_task=2, one_unit_per_task_max=True)
        for q in (a,) + ((a.copy(), a.to_variant_model()) if Cl is X.MS_RCPSPModel else ()):
            expect_eq((q.sink_task, q.source_task, q.one_unit_per_task_max, q.horizon, q.horizon_multiplier), (3, 2, True, 7, 3), 'given source and sink')
    for w in m.employees.values():
        c = w.copy()
        expect_eq((c.salary, c.calendar_employee, {s: (d.skill_value, d.efficiency_ratio, d.experience) for s, d in c.dict_skill.items()}),
                  (w.salary, w.calendar_employee, {s: (d.skill_value, d.efficiency_ratio, d.experience) for s, d in w.dict_skill.items()}), 'employee')
        c.calendar_employee[0] = None
        for d in c.dict_skill.values():
            d.skill_value = -1
        expect(w.calendar_employee[0] is not None and all(d.skill_value > 0 for d in w.dict_skill.values()), 'independent copies of employees')
    g = m.compute_graph()
    expect_eq(({(a, b) for a, b in g.graph_nx.edges()}, set(g.graph_nx.nodes())), ({(a, b) for a in inst['succ'] for b in inst['succ'][a]}, set(inst['tasks'])),
              'graph')
    # the project whose resources are the skills
    r = m.build_multimode_rcpsp_calendar_representative()
    length = len(next(iter(inst['res'].values()))) if inst['res'] else inst['H']
    want = {k: list(q) for k, q in inst['res'].items()}
    for s in inst['skills']:
        want[s] = [sum(sk.get(s, 0) for sk, cal in inst['emp'].values() if t < len(cal) and cal[t]) for t in range(length)]
    expect_eq({k: [int(x) for x in v] for k, v in r.resources.items()}, want, ('representative resources', inst))
    expect_eq({t: {k: {a: v for a, v in x.items()} for k, x in y.items()} for t, y in r.mode_details.items()},
              {t: {k: dict({s: 0 for s in inst['skills']}, **x) for k, x in y.items()} for t, y in inst['modes'].items()}, 'representative modes')
    expect_eq((r.successors, r.horizon, set(r.non_renewable_resources)), (inst['succ'], inst['H'], set(inst['nr'])), 'representative')
    expect_eq((m.mode_details, m.resources_availability), (inst['modes'], inst['res']), 'the model is left as it was')
    rec.state()


# ---------------------------------------------------------------- valid schedules: left shifts and priority lists

def schedules(inst, T):
    """every valid schedule with start dates below T"""
    tasks = inst['tasks']
    real = tasks[1:-1]
    for mv in itertools.product(*[sorted(inst['modes'][t]) for t in real]):
        modes = dict(zip(real, mv))
        modes[1] = modes[tasks[-1]] = 1
        uses = [list(usages(inst, modes, t)) for t in real]
        for st in itertools.product(range(T), repeat=len(real)):
            starts = dict(zip(real, st))
            starts[1] = 0
            starts[tasks[-1]] = max(starts[t] + dur(inst, modes, t) for t in real)
            for us in itertools.product(*uses):
                use = dict(zip(real, us))
                if valid(inst, modes, starts, use):
                    yield modes, starts, {t: u for t, u in use.items() if u}


def shifted(inst, modes, starts, use):
    """task after task, by start date then by name, to its earliest date which its employees and the resources allow"""
    new = {}
    pr = P.preds(inst)
    for t in sorted(starts, key=lambda x: (starts[x], x)):
        low = max([0] + [new.get(p, starts[p]) + dur(inst, modes, p) for p in pr[t]])
        for s in range(low, starts[t] + 1):
            span = range(s, s + dur(inst, modes, t))
            over = [o for o in new if any(new[o] <= d < new[o] + dur(inst, modes, o) for d in span)]
            if any(set(use.get(o, {})) & set(use.get(t, {})) for o in over):
                continue
            if not all(inst['emp'][e][1][d] for e in use.get(t, {}) for d in span):
                continue
            if all(sum(inst['modes'][o][modes[o]][r] for o in new if new[o] <= d < new[o] + dur(inst, modes, o)) + inst['modes'][t][modes[t]][r] <= q[d]
                   for r, q in inst['res'].items() if r not in inst['nr'] for d in span):
                new[t] = s
                break
        else:
            new[t] = starts[t]
    return new


def g_shift():
    I = [project([1, 2], [], [{'a': 1}, {'a': 1}], E2, H=9),
         project([1, 2], [(2, 3)], [{'a': 2}, {'b': 1}], E2, H=9),
         project([2, 1], [], [{'a': 1, 'b': 1}, {'b': 2}], {1: ({'a': 1}, [0]), 2: ({'a': 1, 'b': 2}, [3])}, H=9),
         project([1, 2], [], [{'r': 1}, {'a': 1, 'r': 1}], {1: ({'a': 1}, [])}, res={'r': 1}, H=9),
         project([2, 1], [], [{'r': 1}, {'r': 1}], {1: ({'a': 1}, [])}, res={'r': [2, 1, 0, 1, 2, 2, 1, 1, 1]}, H=9),
         project([1, 1], [], [{'r': 1, 'n': 1}, {'a': 1, 'n': 1}], {1: ({'a': 1}, [1])}, res={'r': [0, 0, 1, 1, 1, 1, 1], 'n': 2}, nr=['n'], H=7),
         graph({2: {1: (1, {'a': 1}), 2: (2, {'b': 1})}, 3: {1: (1, {'a': 1})}}, [], E2, H=9),
         project([1, 1, 2], [(2, 4)], [{'a': 1, 'r': 1}, {'b': 1}, {'a': 1, 'r': 1}], E2, res={'r': 1}, H=8),
         project([0, 1, 1], [(3, 2)], [{}, {'b': 1}, {'a': 1}], E2, H=8),
         project([1, 0, 1], [(3, 2), (4, 3)], [{'a': 1}, {}, {'b': 1}], E2, H=8),
         project([1, 2, 1], [], [{'r': 1}, {'r': 1}, {'r': 1}], {1: ({'a': 1}, [])}, res={'r': 2}, H=8),
         project([1, 2], [], [{'a': 1}, {'a': 1}], {1: ({'a': 1}, []), 2: ({}, []), 3: ({'b': 1}, [0])}, H=9)]
    return I


def do_shift(rec, inst):
    m = model(inst)
    tasks = inst['tasks']
    T = 4 if len(tasks) <= 4 else 3
    setup = get_default_objective_setup(m)
    pp = L.PostProMSRCPSP(problem=m, params_objective_function=setup)
    pr = {t: list(p) for t, p in P.preds(inst).items()}
    stored = []
    for modes, starts, use in schedules(inst, T):
        sol = X.MS_RCPSPSolution(m, dict(modes), schedule_of(inst, modes, starts), deepcopy(use))
        got = L.sgs_variant(solution=sol, problem=m, predecessors_dict=pr)
        rec.state()
        rec.trans()
        expect_eq(got.schedule, schedule_of(inst, modes, shifted(inst, modes, starts, use)), ('left shift', inst, modes, starts, use))
        expect_eq((got.modes, got.employee_usage), (modes, use), 'modes and employees are kept')
        expect_eq((sol.schedule, sol.employee_usage), (schedule_of(inst, modes, starts), use), 'the solution is left as it was')
        expect(m.satisfy(got), ('shifted schedule', inst, starts, starts_of(got)))
        expect(all(got.schedule[t]['start_time'] <= starts[t] for t in tasks), 'no task is delayed')
        stored.append(sol)
        # as priority lists
        v = model(inst, variant=True)
        asv = X.MS_RCPSPSolution(v, dict(modes), schedule_of(inst, modes, starts), deepcopy(use))
        w = X.schedule_solution_to_variant(asv)
        real = tasks[1:-1]
        expect_eq(sorted(w.priority_list_task), list(range(len(real))), 'priority list')
        order = [starts[p + 2] for p in w.priority_list_task]
        expect_eq(order, sorted(order), 'priority by start date')
        expect_eq(w.modes_vector, [modes[t] for t in real], 'modes')
        for t, prio in zip(real, w.priority_worker_per_task):
            expect_eq((set(prio[:len(use.get(t, {}))]), sorted(prio)), (set(use.get(t, {})), sorted(inst['emp'])), 'employees at work come first')
        ref = sgs(inst, [p + 2 for p in w.priority_list_task], modes, dict(zip(real, w.priority_worker_per_task)))
        judge(rec, inst, v, w, ref, modes, ('variant', starts, use))
        c = asv.copy()
        c.schedule[2]['start_time'] = -5
        c.modes[2] = 77
        expect_eq((asv.schedule, asv.modes, asv.employee_usage, c.employee_usage), (schedule_of(inst, modes, starts), modes, use, use), 'copy')
    # all the solutions of a storage
    for picks in ([0], [len(stored) - 1], [0, len(stored) // 2, len(stored) - 1]):
        sols = [stored[i].copy() for i in picks]

        def run():
            rs = ResultStorage(list_solution_fits=[(s, -m.evaluate(s)['makespan']) for s in sols], mode_optim=ModeOptim.MAXIMIZATION)
            return pp.build_other_solution(rs)
        for rs in [run()]:
            rec.trans()
            fits = [f for _, f in rs.list_solution_fits]
            for s, f in rs.list_solution_fits:
                expect_eq(f, -m.evaluate(s)['makespan'], 'fitness of the stored solutions')
                expect(m.satisfy(s), 'stored solutions are valid')
            mine = [shifted(inst, s.modes, starts_of(s), s.employee_usage) for s in sols]
            kept = [starts_of(s) for s, _ in rs.list_solution_fits]
            expect(all(x in kept for x in mine) and all(starts_of(s) in kept for s in sols), 'the shifted solutions are stored')
            expect(max(fits) >= max([-x[tasks[-1]] for x in mine] + [-m.evaluate(s)['makespan'] for s in sols]), 'best fitness')
            # a shifted solution may be shifted again
            reach = []
            for x0 in sols:
                x = starts_of(x0)
                while (x, x0.modes, x0.employee_usage) not in reach:
                    reach.append((x, x0.modes, x0.employee_usage))
                    x = shifted(inst, x0.modes, x, x0.employee_usage)
            expect(all((starts_of(s), s.modes, s.employee_usage) in reach for s, _ in rs.list_solution_fits), 'every stored solution is one of those shifted')
            expect_eq(m.evaluate(rs.get_best_solution())['makespan'], -max(fits), 'best solution')
    rec.outcome('shift')


# ---------------------------------------------------------------- IMOPSE files

def g_files():
    out = []
    for edges in ([], [(1, 2)], [(1, 3), (2, 3)], [(3, 1), (3, 2)]):
        for needs_ in ([('Q0', 0), ('Q1', 1), ('Q0', 1)], [('Q2', 2), ('Q2', 0), ('Q10', 1)]):
            for emp in ({1: (14.2, {'Q0': 1, 'Q1': 1, 'Q2': 2, 'Q10': 1}), 2: (3.5, {'Q0': 0, 'Q2': 0})},
                        {3: (1.0, {'Q0': 2, 'Q1': 0, 'Q10': 2}), 4: (2.0, {'Q2': 2, 'Q1': 2}), 11: (9.9, {'Q10': 1, 'Q0': 0})}):
                out.append((edges, needs_, emp))
    return out


def text(edges, needs_, emp):
    bar = '=' * 60
    s = ['General characteristics:', 'Tasks: %d' % len(needs_), 'Resources: %d' % len(emp), 'Precedence relations: %d' % len(edges),
         'Number of skill types: 3', bar, 'ResourceID \t Salary \t Skills ']
    for e, (sal, sk) in emp.items():
        s.append('%d\t \t%s\t \t' % (e, sal) + ' \t '.join('%s: %d' % kv for kv in sk.items()) + ' ')
    s += [bar, 'TaskID \t Duration \t Skill \t Predecessor IDs ']
    for i, (q, lev) in enumerate(needs_):
        s.append('%d\t%d\t%s: %d\t ' % (i + 1, 2 + i, q, lev) + ' '.join(str(a) for a, b in edges if b == i + 1))
    s.append(bar)
    return '\n'.join(s)


def do_files(rec, case):
    edges, needs_, emp = case
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'f.def')
        with open(path, 'w') as f:
            f.write(text(*case))
        for H in (None, 50):
            m, names = F.parse_file(path, H)
            rec.trans()
            n = len(needs_)
            found = {q for q, _ in needs_} | {s for _, sk in emp.values() for s in sk}
            expect_eq(names, {i + 1: i for i in range(1, n + 1)}, 'names')
            expect_eq(set(m.skills_set), found, 'skills')
            want = {t: {1: dict({'duration': 0}, **{s: 0 for s in found})} for t in range(1, n + 3)}
            for i, (q, lev) in enumerate(needs_):
                want[i + 2][1].update({'duration': 2 + i, q: lev + 1})
            expect_eq(m.mode_details, want, 'tasks')
            succ = {1: set(range(2, n + 3)), n + 2: set()}
            for i in range(1, n + 1):
                succ[i + 1] = {b + 1 for a, b in edges if a == i} | {n + 2}
            expect_eq({t: set(s) for t, s in m.successors.items()}, succ, 'successors')
            expect_eq({e: ({s: x.skill_value for s, x in w.dict_skill.items()}, w.salary, w.calendar_employee) for e, w in m.employees.items()},
                      {e: ({s: v + 1 for s, v in sk.items()}, sal, [True] * (H or 300)) for e, (sal, sk) in emp.items()}, 'employees')
            expect_eq((m.horizon, m.one_unit_per_task_max, m.source_task, m.sink_task, m.resources_availability), (H or 300, True, 1, n + 2, {}), 'model')
            # schedules are written, read and rebuilt
            inst = {'tasks': list(range(1, n + 3)), 'succ': {t: sorted(s) for t, s in succ.items()}, 'modes': want, 'res': {}, 'nr': [], 'H': H or 300,
                    'one': True, 'skills': sorted(found), 'emp': {e: ({s: v + 1 for s, v in sk.items()}, [True] * (H or 300)) for e, (_, sk) in emp.items()}}
            one = {t: 1 for t in inst['tasks']}
            v = m.to_variant_model()
            for perm in itertools.permutations(range(n)):
                for prio in itertools.permutations(emp):
                    sol = X.MS_RCPSPSolution_Variant(v, modes_vector=[1] * n, priority_list_task=list(perm), priority_worker_per_task=[list(prio)] * n)
                    ref = sgs(inst, [p + 2 for p in perm], one, {t: list(prio) for t in range(2, n + 2)})
                    judge(rec, inst, v, sol, ref, one, ('file', perm, prio))
                    if ref is None:
                        continue
                    rec.state()
                    out = os.path.join(d, 'o.sol')
                    F.write_solution(sol, names, out)
                    with open(out) as f:
                        schedule, workers = F.parse_results(f.read())
                    expect_eq(schedule, {t: ref[0][t + 1] for t in range(1, n + 1)}, 'dates read')
                    expect_eq(workers, {t: next(iter(ref[1][t + 1])) for t in range(1, n + 1)}, 'employees read')
                    again = F.recompute_solution(m, names, schedule, workers)
                    expect_eq((again.schedule, again.modes), (schedule_of(inst, one, ref[0]), one), 'rebuilt schedule')
                    expect_eq({t: u for t, u in again.employee_usage.items() if u}, ref[1], 'rebuilt employees')
                    expect(m.satisfy(again), 'rebuilt schedule is valid')
    rec.outcome('file')


def build(ck):
    ck.run(g_satisfy(), do_satisfy, 'validity', chunk=1)
    ck.run(g_sgs(), do_sgs, 'schedules', chunk=1)
    ck.run(g_sgs(), do_encodings, 'encodings', chunk=1)
    other = [project([1, 2], [], [{'a': 1}, {'b': 1}], E2, H=6, days=9), project([1, 2], [], [{'a': 1}, {'b': 1}], E2, res={'r': 1}, H=9, length=6, days=8),
             project([1, 2], [], [{'a': 1}, {'r': 1}], E3, res={'r': 1}, H=9, days=4)]
    other += [project([1, 2], [], [{'a': 1, 'r': 1}, {'a': 1}], E2, res={'r': 2}, H=6, length=9), project([1, 2], [(2, 3)], [{'a': 1}, {'b': 1}], E2, H=5, days=8), project([1, 2], [(2, 3)], [{'a': 1, 'r': 1}, {'b': 1}], E2, res={'r': 1}, H=9, length=6, days=4)]
    ck.run(g_sgs() + g_satisfy() + g_shift() + other, do_models, 'models', chunk=8)
    ck.run(g_shift(), do_shift, 'left shifts', chunk=1)
    ck.run(g_files(), do_files, 'files', chunk=2)
