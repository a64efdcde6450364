"""C30: solvers of multi-skill projects (constraint and integer programmes, solvers of projects with calendars) against all schedules and teams."""
import itertools
import math
from checks.c28_rcpspexact import holds, partial, P, CPSolverName, ModeOptim
from checks.c26_combsolvers import cp, milp
from checks.c29_multiskill import (model, project, graph, topological, valid, needs, dur, starts_of, sgs, schedule_of, data_free, E2, E3, X, judge)
from mc.core import expect, expect_eq, THOROUGH
with data_free():
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers import cp_solvers as CP, lp_model as LP, solver_rcpsp_based as B
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill_solvers as E
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_solvers as RE
    from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_pile import GreedyChoice


def teams(inst, modes, t, rule):
    """all the teams of employees which cover the needs of the task by the rule"""
    need = needs(inst, modes, t)
    emp = inst['emp']
    if not need:
        return [()]
    out = []
    for n in range(1, (1 if 'one' in rule else len(emp)) + 1):
        for team in itertools.combinations(emp, n):
            have = {s: sum(emp[e][0].get(s, 0) for e in team) for s in need}
            if all(have[s] == q if 'exact' in rule else have[s] >= q for s, q in need.items()):
                if not any(set(o) <= set(team) for o in out):
                    out.append(team)
    return out


def all_modes(inst):
    for ms in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]]):
        yield dict(zip(inst['tasks'], (1,) + ms + (1,)))


def best(inst, last, end, rule, p, rec):
    """smallest date of the sink over all schedules whose tasks start by last and end by end, with teams of the rule"""
    order = topological(inst)
    pr = P.preds(inst)
    out = [None]
    cal = 'free' not in rule
    top = {r: max(q) for r, q in inst['res'].items()}
    for modes in all_modes(inst):
        if any(sum(inst['modes'][t][modes[t]][r] for t in inst['tasks']) > top[r] for r in inst['nr']):
            continue
        D = {t: dur(inst, modes, t) for t in inst['tasks']}
        T = {t: teams(inst, modes, t, rule) for t in inst['tasks']}

        def go(i, s, busy):
            if out[0] is not None and s and max(s.values()) >= out[0]:
                return
            if i == len(order):
                rec.states += 1
                if holds(p or {}, modes, inst, s):
                    out[0] = s[inst['tasks'][-1]]
                return
            t = order[i]
            lo = max([0] + [s[x] + D[x] for x in pr[t]])
            for u in range(lo, min(last, end - D[t]) + 1):
                span = range(u, u + D[t])
                if not all(sum(inst['modes'][o][modes[o]][r] for o in s if s[o] <= v < s[o] + D[o]) + inst['modes'][t][modes[t]][r]
                           <= ((q[v] if v < len(q) else 0) if cal else top[r]) for r, q in inst['res'].items() if r not in inst['nr'] for v in span):
                    continue
                for team in T[t]:
                    if any((e, v) in busy for e in team for v in span):
                        continue
                    if cal and not all(v < len(inst['emp'][e][1]) and inst['emp'][e][1][v] for e in team for v in span):
                        continue
                    s[t] = u
                    go(i + 1, s, busy | {(e, v) for e in team for v in span})
                    del s[t]
        go(0, {}, frozenset())
    return out[0]


def relaxed(inst):
    """the same project whose resources and employees are always there"""
    n = 60
    return dict(inst, res={r: [max(q)] * n for r, q in inst['res'].items()}, emp={e: (sk, [True] * n) for e, (sk, c) in inst['emp'].items()})


def check(rs, inst, m, opt, rule, p, at, rec, single=False, decreasing=False):
    if opt is None:
        expect(rs is None or not rs.list_solution_fits, lambda: '%s: solutions %r though there is none' % (at(), rs and [s.schedule for s, _ in rs.list_solution_fits]))
        rec.outcome('none')
        return
    expect(rs.list_solution_fits, lambda: '%s: no solution, expected %r' % (at(), opt))
    ref = relaxed(inst) if 'free' in rule else inst
    last = None
    for sol, fit in rs.list_solution_fits:
        s = starts_of(sol)
        modes = dict(sol.modes)
        expect(sol.problem is m, at)
        expect_eq(sorted(s), inst['tasks'], lambda: at() + ': tasks')
        expect(sorted(modes) == inst['tasks'] and all(modes[t] in inst['modes'][t] for t in modes), lambda: '%s: modes %r' % (at(), modes))
        expect_eq(sol.schedule, schedule_of(inst, modes, s), lambda: at() + ': ends')
        expect(valid(ref, modes, s, sol.employee_usage), lambda: '%s: not valid: %r, modes %r, employees %r' % (at(), s, modes, sol.employee_usage))
        if 'free' not in rule:
            expect(m.satisfy(sol), lambda: at() + ': satisfy')
        for t in inst['tasks']:
            team = sol.employee_usage.get(t, {})
            need = needs(inst, modes, t)
            expect(all(used and used <= set(need) and used <= set(inst['emp'][e][0]) for e, used in team.items()), lambda: '%s: task %r employs %r' % (at(), t, team))
            expect('one' not in rule or len(team) <= 1, lambda: '%s: several employees for task %r' % (at(), t))
            expect('exact' not in rule or all(sum(inst['emp'][e][0].get(k, 0) for e in team) == q for k, q in need.items()),
                   lambda: '%s: skills of task %r by %r' % (at(), t, team))
        expect(holds(p or {}, modes, inst, s), lambda: '%s: %r, modes %r does not hold %r' % (at(), s, modes, p))
        mk = s[inst['tasks'][-1]]
        expect_eq(fit, -mk, lambda: at() + ': fitness')
        expect(last is None or not decreasing or mk < last, lambda: '%s: makespan %r after %r' % (at(), mk, last))
        last = mk
        rec.trans()
    mks = [starts_of(s)[inst['tasks'][-1]] for s, _ in rs.list_solution_fits]
    expect_eq(min(mks), opt, lambda: at() + ': best makespan')
    for b in (rs.best_solution, rs.get_best_solution()):
        expect_eq(starts_of(b)[inst['tasks'][-1]], opt, lambda: at() + ': makespan of the best solution')
    expect(not single or len(mks) == 1, lambda: '%s: %d solutions' % (at(), len(mks)))
    expect_eq(rs.mode_optim, ModeOptim.MAXIMIZATION, lambda: at() + ': sense')
    rec.outcome(opt)


def constraint(rec, c):
    inst, p, rule, how = c
    m = model(inst, variant='variant' in how)
    at = lambda: 'constraint programme (%s, %s) of %r, partial %r' % (rule, how, inst, p)
    end = min([inst['H']] + [len(q) - 1 for q in inst['res'].values()] + [len(cal) - 1 for _, cal in inst['emp'].values()])
    opt = best(inst, end, end, rule, p, rec)
    kw = {'one_ressource_per_task': True} if 'one' in rule else {}
    solver = CP.CP_MS_MRCPSP_MZN(m, cp_solver_name=CPSolverName.CHUFFED, **kw)
    args = {'partial_solution': partial(p)}
    if 'exact' not in rule:
        args['exact_skills_need'] = False
    elif 'default' not in how:
        args['exact_skills_need'] = True
    if 'free' in rule:
        args['add_calendar_constraint_unit'] = False
    if 'typed' in how:
        args['output_type'] = True
    every = 'last' not in how
    if not every and opt is None:
        return
    if 'init' in how:
        solver.init_model(**args)
        rs = solver.solve(parameters_cp=cp(every))
    else:
        rs = solver.solve(parameters_cp=cp(every), **args)
    check(rs, inst, m, opt, rule, p, at, rec, decreasing=every, single=not every)


def integer(rec, c):
    inst, how = c
    m = model(inst, variant='variant' in how)
    at = lambda: 'integer programme (%s) of %r' % (how, inst)
    last = sum(max(x['duration'] for x in ms.values()) for ms in inst['modes'].values()) + 10
    opt = best(inst, last, 10 ** 6, '', None, rec)
    if opt is None:
        rec.outcome('none')
        return
    solver = LP.LP_Solver_MRSCPSP(m, lp_solver=LP.MilpSolverName.CBC)
    if 'lazy' not in how:
        solver.init_model()
    rs = solver.solve(parameters_milp=milp('one' not in how))
    check(rs, inst, m, opt, '', None, at, rec, single='one' in how)


METHODS = [('greedy', RE.PileSolverRCPSP_Calendar, {'greedy_choice': GreedyChoice.MOST_SUCCESSORS}), ('cp', RE.CP_MRCPSP_MZN, None), ('lp', RE.LP_MRCPSP, None)]


def based(rec, c):
    """solvers of the project whose resources are the skills: their priority lists and modes, scheduled with all the workers"""
    inst, which = c
    m = model(inst, variant=True)
    name, method, kw = METHODS[which]
    kw = dict(kw) if kw is not None else {'cp_solver_name': CPSolverName.CHUFFED, 'parameters_cp': cp(True)} if name == 'cp' else {
        'lp_solver': RE.LP_RCPSP_Solver.CBC, 'parameters_milp': milp(True)}
    at = lambda: '%s based solver of %r' % (name, inst)
    under = RE.solve(method, m.build_multimode_rcpsp_calendar_representative(), **kw)
    rs = B.Solver_RCPSP_Based(m, method, **kw).solve()
    want = [(list(s.rcpsp_permutation), list(s.rcpsp_modes)) for s, _ in under.list_solution_fits]
    expect_eq([(list(s.priority_list_task), list(s.modes_vector)) for s, _ in rs.list_solution_fits], want, lambda: at() + ': priority lists and modes')
    expect(want, lambda: at() + ': no solution')
    real = inst['tasks'][1:-1]
    for s, fit in rs.list_solution_fits:
        modes = dict(zip(inst['tasks'], [1] + list(s.modes_vector) + [1]))
        ref = sgs(inst, [x + 2 for x in s.priority_list_task], modes, {t: list(inst['emp']) for t in real})
        expect_eq([list(w) for w in s.priority_worker_per_task], [list(inst['emp'])] * len(real), lambda: at() + ': workers')
        judge(rec, inst, m, s, ref, modes, at())
        expect_eq(fit, -m.evaluate(s)['makespan'], lambda: at() + ': fitness')
    expect_eq(rs.get_best_solution_fit()[1], max(f for _, f in rs.list_solution_fits), lambda: at() + ': best')
    rec.state()


def entry(rec, c):
    inst, variant = c
    m = model(inst, variant=variant)
    got = E.look_for_solver(m)
    want = [s for s, ms in E.solvers_compatibility.items() if type(m) in ms]
    expect_eq(got, want, 'solvers proposed')
    expect(LP.LP_Solver_MRSCPSP in got and CP.CP_MS_MRCPSP_MZN in got, 'exact solvers are proposed')
    expect_eq(E.GA_MSRCPSP_Solver in got, variant, 'genetic algorithms need encodings')
    end = min([inst['H']] + [len(q) - 1 for q in inst['res'].values()] + [len(cal) - 1 for _, cal in inst['emp'].values()])
    for key in ('lp', 'cp'):
        for s, kw in E.solvers[key]:
            expect_eq(E.solvers_map[s][0], key, 'map of solvers')
            kw = dict(kw)
            rule = '' if key == 'lp' else 'exact'
            if key == 'cp':
                kw['parameters_cp'] = cp(True)
            for run in (lambda: E.solve(s, m, **kw), lambda: E.return_solver(s, m, **kw).solve(**kw)):
                last = sum(max(x['duration'] for x in ms.values()) for ms in inst['modes'].values()) + 10 if key == 'lp' else end
                opt = best(inst, last, 10 ** 6 if key == 'lp' else end, rule, None, rec)
                if key == 'lp' and opt is None:
                    continue
                check(run(), inst, m, opt, rule, None, lambda: '%s through entry points of %r' % (s.__name__, inst), rec)
            if key == 'cp':
                kw.update(exact_skills_need=False, one_ressource_per_task=True)
                check(E.solve(s, m, **kw), inst, m, best(inst, end, end, 'one', None, rec), 'one', None, lambda: '%s with options of %r' % (s.__name__, inst), rec)
    rec.state()


def family():
    out = []
    emps = [E2, E3, {4: ({'a': 1, 'b': 1}, [0, 2]), 9: ({'a': 2}, [1])}, {1: ({'a': 1}, [1, 2, 3]), 2: ({'b': 1}, [0]), 3: ({'a': 2, 'b': 1}, [2, 3, 4])}]
    n2 = [[{'a': 1}, {'a': 1}], [{'a': 1}, {'b': 1}], [{'a': 2}, {'a': 1, 'b': 1}], [{'a': 1, 'b': 1}, {}], [{'a': 2, 'b': 1}, {'b': 1}]]
    for emp in emps:
        for need in n2:
            for d in ((1, 2), (2, 2)):
                out.append(project(list(d), [], need, emp, H=9, length=10))
                out.append(project(list(d), [(2, 3)], need, emp, H=9, length=9))
    for emp in emps:
        for r in ([2, 1, 0, 1, 2, 1, 1, 1, 1, 1], [0, 1, 1, 2, 2, 2, 1, 1, 1, 1]):
            for need in ([{'a': 1, 'r': 1}, {'r': 1}], [{'r': 1, 'b': 1}, {'a': 1, 'r': 1}]):
                out.append(project([1, 2], [], need, emp, res={'r': r}, H=9, length=10))
        out.append(project([2, 1, 1], [(2, 4)], [{'a': 1}, {'b': 1}, {'a': 1, 'b': 1}], emp, H=9, length=10))
        out.append(project([1, 1, 1], [], [{'a': 1}, {'a': 1}, {'b': 1}], emp, res={'r': 1}, H=7, length=9))
        out.append(graph({2: {1: (1, {'a': 2}), 2: (2, {'b': 1})}, 3: {1: (1, {'a': 1}), 2: (3, {})}}, [], emp, H=9, length=10))
        out.append(graph({2: {1: (1, {'a': 1, 'n': 2}), 2: (3, {'b': 1, 'n': 0})}, 3: {1: (1, {'b': 1, 'n': 1}), 2: (2, {'a': 1, 'n': 0})}}, [(3, 2)], emp,
                         res={'n': 2, 'r': 1}, nr=['n'], H=9, length=10))
    # waits for calendars, employees or resources which are late, no solution
    off = [0, 1, 2, 3, 4, 5]
    out += [project([1, 1], [], [{'a': 1}, {}], {1: ({'a': 1}, off)}, H=9, length=10), project([2], [], [{'a': 1}], {1: ({'a': 1}, [1, 3, 5])}, H=9, length=10),
            project([1], [], [{'r': 1}], {1: ({'a': 1}, [])}, res={'r': [0] * 6 + [1] * 4}, H=9, length=10),
            project([1, 1], [], [{'r': 1}, {'r': 1}], {1: ({'a': 1}, [])}, res={'r': [1, 0, 0, 0, 0, 1, 0, 0, 0, 0]}, H=9, length=10),
            project([1], [], [{'a': 2}], {1: ({'a': 1}, [])}, H=5, length=6), project([2, 2], [(2, 3)], [{'a': 1}, {'a': 1}], {1: ({'a': 1}, [])}, H=3, length=9),
            project([2, 2], [(2, 3)], [{'a': 1}, {'a': 1}], {1: ({'a': 1}, [])}, H=4, length=9), project([2, 2], [(2, 3)], [{'a': 1}, {'a': 1}], {1: ({'a': 1}, [])}, H=9, length=5),
            project([2, 2], [], [{'a': 1}, {'a': 1}], {1: ({'a': 1}, []), 2: ({'b': 1}, [])}, H=9, length=10, days=4),
            project([1, 1], [], [{'a': 1, 'b': 1}, {'a': 1}], {1: ({'a': 1, 'b': 1}, [])}, H=9, length=10),
            project([1, 1], [], [{'a': 3}, {'a': 2}], {1: ({'a': 1}, []), 2: ({'a': 2}, [1]), 3: ({'a': 2}, [0])}, H=9, length=10),
            project([0, 1], [(2, 3)], [{}, {'a': 1}], E2, H=5, length=6)]
    # calendars of different lengths: nobody is there after theirs
    for lens in ((12, 7, 9), (5, 12, 8), (8, 9, 4)):
        for need in n2[:3]:
            x = project([1, 2], [], need, E3, H=11, length=12)
            out.append(dict(x, emp={e: (sk, (cal * 2)[:n]) for (e, (sk, cal)), n in zip(x['emp'].items(), lens)}))
    return out


def fractions():
    """levels which are not integers"""
    half = {1: ({'a': 1.5, 'b': 1}, []), 2: ({'a': 1.5}, []), 3: ({'b': 2.25}, [1])}
    return [project(list(d), e, need, half, H=9, length=10) for d in ((1, 2), (2, 2)) for e in ([], [(2, 3)])
            for need in ([{'a': 2}, {'a': 1}], [{'a': 1, 'b': 1}, {'b': 2}], [{'a': 2, 'b': 2}, {'b': 2}], [{'b': 3}, {'a': 1}])]


PARTIAL = [{'start_times': {2: 1}}, {'start_times': {3: 2, 1: 0}}, {'partial_permutation': [3, 2]}, {'list_partial_order': [[3, 2], [1, 3]]}, {'start_together': [(2, 3)]},
           {'start_at_end': [(3, 2)]}, {'start_at_end_plus_offset': [(2, 3, 1)]}, {'start_after_nunit': [(3, 2, 1)]}, {'task_mode': {2: 1, 3: 1}},
           {'start_times': {3: 0}, 'partial_permutation': [3, 2]}, {'start_after_nunit': [(2, 3, 2)], 'list_partial_order': [[2, 3]]}]


def build(ck):
    I = family()
    rules = ('', 'exact', 'one', 'exact one', 'free', 'exact free')
    hows = ('plain', 'init', 'default typed', 'last', 'typed', 'default init variant', 'last typed', 'default last')
    jobs = [(x, None, rules[(i + j) % 6], hows[(i + 3 * j) % 8]) for i, x in enumerate(I) for j in range(6 if THOROUGH else 2)]
    jobs += [(x, None, r, hows[(i + j) % 8].replace('default', 'plain')) for i, x in enumerate(fractions()) for j, r in enumerate(('', 'one', 'free'))]
    ck.run(jobs, constraint, 'constraints', chunk=2, timeout=300)
    two = [x for x in I if len(x['tasks']) == 4]
    jobs = [(two[(7 * i + k) % len(two)], p, rules[(i + k) % 6], hows[(i + 5 * k) % 8]) for i, p in enumerate(PARTIAL) for k in range(9 if THOROUGH else 3)]
    multi = [x for x in two if 2 in x['modes'][2]]
    jobs += [(x, {'task_mode': q, **more}, r, 'plain') for x in multi for q in ({2: 2}, {2: 1, 3: 2}, {3: 2, 2: 2}) for more in ({}, {'start_times': {2: 1}})
             for r in (('', 'exact') if THOROUGH else ('',))]
    ck.run(jobs, constraint, 'partial solutions', chunk=2, timeout=300)
    kinds = ('plain', 'lazy', 'one', 'variant')
    ck.run([(x, kinds[i % 4]) for i, x in enumerate(I)], integer, 'integers', chunk=1, timeout=300)
    # without resources, the calendars of the skills end just before the horizon
    fit = [x for x in I if best(x, x['H'], x['H'] - (not x['res']), '', None, ck) is not None]
    ck.run([(x, k) for x in fit[::3] + fit[-8:-5] for k in range(3)], based, 'based on projects with calendars', chunk=1, timeout=300)
    ck.run([(x, v) for x in I[::9] for v in (False, True)], entry, 'entry points', chunk=1, timeout=300)
