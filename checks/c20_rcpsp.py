"""C20: RCPSP models: decoding of permutations and modes, feasibility, evaluation, encodings, copies."""
import itertools
from copy import deepcopy
from types import SimpleNamespace
from mc.core import expect, expect_eq, THOROUGH
from checks import rcpspref as P
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as M

DAGS3 = P.dags(3)


def build_model(inst, horizon, mult=1, kind=None):
    cal = not all(isinstance(q, int) for q in inst['res'].values())
    multi = any(len(m) > 1 for m in inst['modes'].values())
    cls = M.RCPSPModelCalendar if cal else M.MultiModeRCPSPModel if multi else M.SingleModeRCPSPModel
    res = {r: q if not cal else (list(q) + [q[-1]] * horizon * mult)[:horizon * mult + 1] if not isinstance(q, int) else [q] * (horizon * mult + 1) for r, q in inst['res'].items()}
    return cls(resources=res, non_renewable_resources=list(inst['nr']), mode_details=deepcopy(inst['modes']),
               successors=deepcopy(inst['succ']), horizon=horizon, horizon_multiplier=mult)


def extended(inst, modes):
    n = len(inst['tasks']) - 2
    return dict(zip(inst['tasks'], [1] + list(modes) + [1])) if n else {1: 1, 2: 1}


def starts_of(sol):
    return {k: v['start_time'] for k, v in sol.rcpsp_schedule.items()}


def reserve(inst, modes, starts, mk):
    out = []
    for r in inst['res']:
        out.append(sum(P.avail(inst, r, t) - P.usage(inst, modes, starts, r, t) for t in range(mk)) / mk / P.avail(inst, r, 0))
    return sum(out) / len(out)


def check_solution(inst, model, sol, modes, want, H, at, rec):
    """want: reference starts, or None when infeasible"""
    if want is not None and any(P.total(inst, modes, r) > P.avail(inst, r, 0) for r in inst['nr']):
        want = None
    rec.trans()
    if want is None:
        expect(sol.rcpsp_schedule_feasible is False, lambda: at() + ': said feasible')
        expect(not model.satisfy(sol), lambda: at() + ': satisfies')
        mk = model.evaluate(sol)['makespan']
        expect(mk > H, lambda: at() + ': makespan %r of an infeasible schedule within the horizon %d' % (mk, H))
        rec.outcome('infeasible')
        return None
    dur = {k: inst['modes'][k][modes[k]]['duration'] for k in want}
    expect(sol.rcpsp_schedule_feasible is True, lambda: at() + ': said infeasible, expected %r' % want)
    expect_eq({k: (v['start_time'], v['end_time']) for k, v in sol.rcpsp_schedule.items()}, {k: (s, s + dur[k]) for k, s in want.items()}, lambda: at() + ': schedule')
    expect(bool(model.satisfy(sol)), lambda: at() + ': does not satisfy')
    mk = max(want[k] + dur[k] for k in want)
    ev = model.evaluate(sol)
    expect_eq(ev['makespan'], mk, lambda: at() + ': makespan')
    rec.outcome(mk)
    if mk and not inst['nr'] and not isinstance(model, M.RCPSPModelCalendar):
        rr = reserve(inst, modes, want, mk)
        expect(abs(ev['mean_resource_reserve'] - rr) < 1e-9, lambda: '%s: mean resource reserve %r, expected %r' % (at(), ev['mean_resource_reserve'], rr))
        f = model.evaluate_mobj(sol)
        expect_eq([round(float(x), 9) for x in f.vector_fitness], [-mk, round(rr, 9)], lambda: at() + ': multi-objective')
    # the permutation read from the schedule orders the tasks by start date, and decodes to no later makespan
    p = sol.generate_permutation_from_schedule()
    expect_eq(sorted(p), list(range(len(inst['tasks']) - 2)), lambda: at() + ': standardised permutation')
    expect(all(want[a + 2] <= want[b + 2] for a, b in zip(p, p[1:])), lambda: at() + ': standardised permutation %r of %r' % (p, want))
    return mk


def decode(rec, c):
    """all permutations (and modes) of one instance"""
    edges, durs, needs, res, nr, more, H, mult = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H, mult)
    before = deepcopy((model.resources, model.mode_details, model.successors))
    n = len(durs)
    rec.state()
    ids = inst['tasks']
    for modes in itertools.product(*[sorted(inst['modes'][t]) for t in ids[1:-1]]):
        ext = extended(inst, modes)
        best = None
        for perm in itertools.permutations(range(n)):
            at = lambda: 'order %r, modes %r of %r' % (perm, modes, c)
            order = [1] + [p + 2 for p in perm] + [n + 2]
            want = P.sgs(inst, order, ext, H * mult)
            sol = M.RCPSPSolution(problem=model, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
            mk = check_solution(inst, model, sol, ext, want, H * mult, at, rec)
            if mk is not None and (best is None or mk < best):
                best = mk
            encodings(model, sol, perm, modes, mk, at, H * mult)
        opt = P.optimum(inst, ext, H * mult)
        expect_eq(best, opt, lambda: 'best makespan over all orders, modes %r of %r' % (modes, c))
        rec.trace()
    expect_eq((model.resources, model.mode_details, model.successors), before, lambda: 'the problem %r was modified' % (c,))


def encodings(model, sol, perm, modes, mk, at, H):
    def same(x, what):
        expect(x == mk if mk is not None else x > H, lambda: '%s: makespan %r %s, expected %r' % (at(), x, what, mk))
    if isinstance(model, M.MultiModeRCPSPModel):
        model.set_fixed_modes(list(modes))
        same(model.evaluate_from_encoding(list(perm), 'rcpsp_permutation')['makespan'], 'from the permutation with fixed modes')
        model.set_fixed_permutation(list(perm))
        model.set_fixed_modes([1] * len(modes))
        same(model.evaluate_from_encoding([m - 1 for m in modes], 'rcpsp_modes')['makespan'], 'from the modes with a fixed permutation')
        fresh = M.RCPSPSolution(problem=model, rcpsp_modes=list(modes))
        same(model.evaluate(fresh)['makespan'], 'from the fixed permutation')
        other = model.copy()
        expect_eq((other.fixed_modes, other.fixed_permutation), (model.fixed_modes, model.fixed_permutation), lambda: at() + ': fixed attributes of a copy')
    elif set(modes) == {1}:
        same(model.evaluate_from_encoding(list(perm), 'rcpsp_permutation')['makespan'], 'from the permutation')
    cp = sol.copy()
    expect(cp == sol and hash(cp) == hash(sol) and starts_of(cp) == starts_of(sol), lambda: at() + ': copy differs')
    same(model.evaluate(cp)['makespan'], 'of a copy')
    s0 = deepcopy(sol.rcpsp_schedule)
    lazy = sol.lazy_copy()
    for other in (cp, lazy):
        rev = list(perm)[::-1]
        other.rcpsp_permutation = rev
        ref = M.RCPSPSolution(problem=model, rcpsp_permutation=rev, rcpsp_modes=list(modes))
        expect_eq(model.evaluate(other)['makespan'], model.evaluate(ref)['makespan'], lambda: at() + ': makespan after the permutation of a copy is reversed')
        expect_eq(other.rcpsp_schedule, ref.rcpsp_schedule, lambda: at() + ': schedule after the permutation of a copy is reversed')
        expect(other != sol or rev == list(perm), lambda: at() + ': equal to a solution with another permutation')
        # a copy taken before the schedule is recomputed
        first = sol.copy()
        first.rcpsp_permutation = rev
        expect_eq(model.evaluate(first.copy() if other is cp else first.lazy_copy())['makespan'], model.evaluate(ref)['makespan'],
                  lambda: at() + ': makespan of a copy taken after the permutation is reversed')
    if len(model.mode_details) > 2 and any(len(m) > 1 for m in model.mode_details.values()):
        cp2 = sol.copy()
        new = [max(model.mode_details[i + 2]) if m == 1 else 1 for i, m in enumerate(modes)]
        cp2.rcpsp_modes = list(new)
        ref = M.RCPSPSolution(problem=model, rcpsp_permutation=list(perm), rcpsp_modes=list(new))
        expect_eq(model.evaluate(cp2)['makespan'], model.evaluate(ref)['makespan'], lambda: at() + ': makespan after the modes of a copy are set to %r' % new)
        expect(cp2 != sol, lambda: at() + ': equal to a solution with other modes')
        same(model.evaluate(sol)['makespan'], 'after the modes of a copy were changed')
        inv = M.RCPSPSolution(problem=model, rcpsp_permutation=list(perm), rcpsp_modes=[9 if m == 1 else m for m in modes])
        same(model.evaluate(inv)['makespan'], 'with modes which do not exist, replaced by mode 1')
    expect_eq(sol.rcpsp_schedule, s0, lambda: at() + ': the schedule of a solution changed with that of its copy')


def feasibility(rec, c):
    """satisfy() on every assignment of start dates"""
    edges, durs, needs, res, nr, more, T = c[:7]
    inst = P.instance(edges, durs, needs, res, nr, more)
    mult = c[7] if len(c) > 7 else 1
    H = (T + max(max(d['duration'] for d in m.values()) for m in inst['modes'].values())) // mult + 1
    model = build_model(inst, H, mult)
    n = len(durs)
    for modes in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]]):
        ext = extended(inst, modes)
        dur = {k: inst['modes'][k][ext[k]]['duration'] for k in inst['tasks']}
        for st in itertools.product(range(T + 1), repeat=n):
            starts = dict(zip(inst['tasks'][1:-1], st))
            for src, late in ((0, 0), (0, -1), (1, 0)):
                full = dict(starts)
                full[1] = src
                full[n + 2] = max([0] + [full[k] + dur[k] for k in starts]) + late
                if late and full[n + 2] < max(full[k] + 1 for k in starts):
                    continue
                full = {k: full[k] for k in inst['tasks']}
                want = P.feasible(inst, ext, full)
                for flag in (None, True) if not src else (True,):
                    sol = M.RCPSPSolution(problem=model, rcpsp_permutation=list(range(n)), rcpsp_modes=list(modes), rcpsp_schedule_feasible=flag,
                                          rcpsp_schedule={k: {'start_time': s, 'end_time': s + dur[k]} for k, s in full.items()})
                    rec.trans()
                    at = lambda: 'start dates %r, modes %r of %r' % (full, modes, c)
                    expect_eq(bool(model.satisfy(sol)), want, lambda: at() + ': satisfy')
                    if want:
                        expect_eq(model.evaluate(sol)['makespan'], full[n + 2], lambda: at() + ': makespan')
                    expect_eq(starts_of(sol), full, lambda: at() + ': schedule')
                rec.outcome(want)
                if want and not src and not late:
                    sol.rcpsp_schedule_feasible = False
                    expect(not model.satisfy(sol), lambda: at() + ': satisfied though flagged infeasible')
                    bare = M.RCPSPSolution(problem=model, rcpsp_modes=list(modes), rcpsp_schedule={k: {'start_time': s, 'end_time': s + dur[k]} for k, s in
                                                                                                   (list(full.items())[::-1] if sum(st) % 2 else full.items())})
                    expect_eq(starts_of(bare), full, lambda: at() + ': schedule without a permutation')
                    q = bare.rcpsp_permutation
                    expect(sorted(q) == list(range(n)) and all(full[a + 2] <= full[b + 2] for a, b in zip(q, q[1:])), lambda: at() + ': permutation %r read from the schedule' % (q,))
    rec.state()


def partial(rec, c):
    """decoding from a given date, with tasks completed and others started"""
    edges, durs, needs, res, more, H, nr, mult, wrong = tuple(c) + ((), 1, False)[len(c) - 6:]
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, H, mult)
    before = deepcopy((model.resources, model.mode_details, model.successors))
    H *= mult
    n = len(durs)
    base = None
    for modes in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]]):
        ext = extended(inst, modes)
        for base_perm in itertools.permutations(range(n)):
            base = P.sgs(inst, [1] + [p + 2 for p in base_perm] + [n + 2], ext, H)
            if base is None:
                continue
            if any(P.total(inst, ext, r) > P.avail(inst, r, 0) for r in nr):
                # with nothing but the source done, the stocks are overdrawn
                sol = M.RCPSPSolution(problem=model, rcpsp_permutation=list(base_perm), rcpsp_modes=list(modes))
                sol.generate_schedule_from_permutation_serial_sgs_2(current_t=0, completed_tasks={1: SimpleNamespace(start=0, end=0)}, scheduled_tasks_start_times={})
                expect(sol.rcpsp_schedule_feasible is False and model.evaluate(sol)['makespan'] > H, lambda: 'order %r, modes %r of %r from 0: said feasible' % (base_perm, modes, c))
                rec.trans()
                continue
            dur = {k: inst['modes'][k][ext[k]]['duration'] for k in base}
            for now in range(0, base[n + 2] + 1):
                done = {k: SimpleNamespace(start=s, end=s + dur[k]) for k, s in base.items() if s + dur[k] <= now and k != n + 2}
                going = {k: s for k, s in base.items() if s < now < s + dur[k]}
                for perm in itertools.permutations(range(n)):
                    # the tasks under way come first
                    order = sorted(perm, key=lambda p: p + 2 not in going)
                    sol = M.RCPSPSolution(problem=model, rcpsp_permutation=list(order), rcpsp_modes=list(modes))
                    if wrong:
                        sol.rcpsp_modes = [7 if m == 1 else m for m in modes]
                    sol.generate_schedule_from_permutation_serial_sgs_2(current_t=now, completed_tasks=done, scheduled_tasks_start_times=going)
                    want = P.sgs(inst, [1] + [p + 2 for p in order] + [n + 2], ext, H, done=done, given=going, now=now)
                    at = lambda: 'order %r from %d after %r, modes %r of %r' % (order, now, base, modes, c)
                    rec.trans()
                    if want is None:
                        expect(sol.rcpsp_schedule_feasible is False, lambda: at() + ': said feasible')
                        expect(not model.satisfy(sol) and model.evaluate(sol)['makespan'] > H, lambda: at() + ': satisfies')
                        continue
                    want.update({k: v.start for k, v in done.items()})
                    expect_eq({k: (v['start_time'], v['end_time']) for k, v in sol.rcpsp_schedule.items()}, {k: (s, s + dur[k]) for k, s in want.items()}, lambda: at() + ': schedule')
                    expect(sol.rcpsp_schedule_feasible is True, lambda: at() + ': said infeasible')
                    expect_eq(model.evaluate(sol)['makespan'], want[n + 2], lambda: at() + ': makespan')
                    expect_eq(list(sol.rcpsp_modes), list(modes), lambda: at() + ': modes')
    expect_eq((model.resources, model.mode_details, model.successors), before, lambda: 'the problem %r was modified' % (c,))
    rec.state()


def helpers(rec, c):
    """models with helper tasks: the tasks before are delayed as much as possible, nothing else moves"""
    edges, durs, needs, cap, hdur, helper_cap, k = c
    n = len(durs)
    # tasks 2..n+1: main; then pre helpers and post helpers of the first k
    d = list(durs) + [hdur] * (2 * k)
    nd = [dict(R=q) for q in needs] + [dict(A=1)] * (2 * k)
    e = list(edges) + [(n + i, i) for i in range(k)] + [(i, n + k + i) for i in range(k)]
    inst = P.instance(e, d, nd, {'R': cap, 'A': helper_cap})
    for t in inst['succ']:
        inst['succ'][t] = list(inst['succ'][t])
    base = build_model(inst, 40)
    pre = {i + 2: [n + i + 2] for i in range(k)}
    post = {i + 2: [n + k + i + 2] for i in range(k)}
    model = M.RCPSP_H_Model(base, pre, post)
    ext = {t: 1 for t in inst['tasks']}
    N = n + 2 * k
    perms = [list(p) + r for p in itertools.permutations(range(n, n + k)) for r in
             (list(range(n)) + list(range(n + k, N)), list(range(n))[::-1] + list(range(n + k, N))[::-1])]
    perms += [list(range(n)) + list(range(n, N)), list(range(N))[::-1]]
    for perm in perms:
        at = lambda: 'order %r of %r with helpers' % (perm, c)
        rec.state()
        s0 = P.sgs(inst, [1] + [p + 2 for p in perm] + [N + 2], ext, 40)
        sol = M.RCPSPSolution(problem=model, rcpsp_permutation=list(perm), rcpsp_modes=[1] * N)
        ev = model.evaluate(sol)
        ref = dict(s0)
        dur = {t: inst['modes'][t][1]['duration'] for t in inst['tasks']}
        ids = [pre[m][0] for m in pre]
        # latest first; the later helper is moved first
        for order in [sorted(ids, key=lambda h: (ref[h], h), reverse=True)]:
            for h in order:
                last = min(ref[x] for x in inst['succ'][h]) - dur[h]
                cur = last
                while cur > ref[h]:
                    trial = dict(ref)
                    trial[h] = cur
                    if P.feasible(inst, ext, trial):
                        break
                    cur -= 1
                ref[h] = cur
        rec.trans()
        got = starts_of(sol)
        fixed = {t: s for t, s in got.items() if t not in ids}
        expect_eq(fixed, {t: s for t, s in s0.items() if t not in ids}, lambda: at() + ': tasks which are no pre-helpers moved')
        expect(P.feasible(inst, ext, got), lambda: at() + ': infeasible schedule %r' % got)
        # each pre-helper ends as late as the others allow
        for h in ids:
            for later in range(got[h] + 1, min(got[x] for x in inst['succ'][h]) - dur[h] + 1):
                trial = dict(got)
                trial[h] = later
                expect(not P.feasible(inst, ext, trial), lambda: '%s: helper %d at %d could start at %d' % (at(), h, got[h], later))
        expect_eq(ev['makespan'], s0[N + 2], lambda: at() + ': makespan')
        expect_eq(model.evaluate_from_encoding(list(perm), 'rcpsp_permutation'), ev, lambda: at() + ': from the encoding')
        gap = sum(got[m] - got[pre[m][0]] - hdur + got[post[m][0]] - got[m] - dur[m] for m in pre)
        expect_eq(ev['cumulated_helper_gap'], gap, lambda: at() + ': cumulated gap')
        expect(bool(model.satisfy(sol)), lambda: at() + ': does not satisfy')


def registers(rec, c):
    """what the models declare"""
    inst = P.instance((), (1, 2, 1), [{'R': 1}] * 3, {'R': 2}, (), {1: {2: (1, {'R': 2}), 3: (2, {'R': 1})}} if c else None)
    m = build_model(inst, 10, 2)
    reg = m.get_attribute_register().dict_attribute_to_type
    expect_eq([reg['rcpsp_permutation']['n'], reg['rcpsp_modes']['n'], reg['rcpsp_modes']['arrity']], [3, 3, 3 if c else 1], 'encodings')
    expect_eq(reg['rcpsp_modes_arrity_fix']['arrities'], [1, 3, 1] if c else [1, 1, 1], 'number of modes per task')
    expect_eq(m.is_rcpsp_multimode(), bool(c), 'is_rcpsp_multimode')
    obj = m.get_objective_register()
    expect_eq((obj.objective_sense, obj.get_list_objective_and_default_weight()), (M.ModeOptim.MAXIMIZATION, (['makespan', 'mean_resource_reserve'], [-1, 1])), 'objectives')
    m2 = m.copy()
    expect_eq((type(m2), m2.resources, m2.mode_details, m2.successors, m2.horizon, m2.horizon_multiplier, m2.n_jobs),
              (type(m), m.resources, m.mode_details, m.successors, 10, 2, 3), 'copy of the model')
    m2.mode_details[2][1]['duration'] = 7
    m2.successors[2].append(3)
    expect_eq((m.mode_details, m.successors), (inst['modes'], inst['succ']), 'a copy shares its content with the model')
    g = m.compute_graph()
    expect_eq((sorted(n for n, _ in g.nodes), sorted((a, b) for a, b, _ in g.edges)), (inst['tasks'], sorted((a, b) for a in inst['succ'] for b in inst['succ'][a])), 'precedence graph')
    expect_eq({n: dict(d) for n, d in g.nodes}, {t: {k: x['duration'] for k, x in ms.items()} for t, ms in inst['modes'].items()}, 'precedence graph: durations')
    if c:
        for perm in itertools.permutations(range(3)):
            for mv in itertools.product((1,), (1, 2, 3), (1,)):
                mm = m.copy()
                s = M.RCPSPSolution(problem=mm, rcpsp_permutation=list(perm), rcpsp_modes=list(mv))
                for enc, att in (('rcpsp_permutation', 'fixed_permutation'), ('rcpsp_modes', 'fixed_modes'), ('rcpsp_modes_arrity_fix', 'fixed_modes')):
                    mm.set_fixed_permutation(None)
                    mm.set_fixed_modes(None)
                    mm.set_fixed_attributes(enc, s)
                    expect_eq((mm.fixed_permutation, mm.fixed_modes), (list(perm), None) if att == 'fixed_permutation' else (None, list(mv)), 'set_fixed_attributes(%r)' % enc)
    # consumption over time
    for perm in itertools.permutations(range(3)):
        s = M.RCPSPSolution(problem=m, rcpsp_permutation=list(perm), rcpsp_modes=[1, 3 if c else 1, 1])
        use = m.compute_resource_consumption(s)
        ext = dict(zip(inst['tasks'], [1] + list(s.rcpsp_modes) + [1]))
        st = starts_of(s)
        expect_eq([float(x) for x in use[0][1:]], [float(P.usage(inst, ext, st, 'R', t)) for t in range(st[5])], lambda: 'consumption of order %r' % (perm,))
    # calendars
    ci = P.instance(((0, 1),), (1, 2, 1), [{'R': 1}] * 3, {'R': [2, 1, 0, 1, 2, 2, 2, 2, 2, 2]}, ())
    cm = build_model(ci, 9)
    for perm in itertools.permutations(range(3)):
        want = P.sgs(ci, [1] + [p + 2 for p in perm] + [5], {t: 1 for t in ci['tasks']}, 9)
        expect_eq(cm.evaluate_from_encoding(list(perm), 'rcpsp_permutation')['makespan'], want[5], lambda: 'calendar model: order %r from its encoding' % (perm,))
        c2 = cm.copy()
        expect_eq((type(c2), c2.resources, c2.mode_details, c2.successors, c2.horizon, c2.horizon_multiplier), (type(cm), cm.resources, cm.mode_details, cm.successors, 9, 1), 'copy of a calendar model')
        c2.resources['R'][0] = 0
        expect_eq(M.RCPSPSolution(problem=cm, rcpsp_permutation=list(perm), rcpsp_modes=[1] * 3).rcpsp_schedule[5]['end_time'], want[5], 'a copy of a calendar model shares its calendars')
    d = m.get_dummy_solution()
    expect_eq((list(d.rcpsp_permutation), list(d.rcpsp_modes)), ([0, 1, 2], [1, 1, 1]), 'dummy solution')
    # the same solution in another problem
    inst3 = P.instance(((0, 1),), (2, 2, 3), [{'R': 2}, {'R': 1}, {'R': 1}], {'R': 2})
    m3 = build_model(inst3, 20)
    for perm in itertools.permutations(range(3)):
        s = M.RCPSPSolution(problem=m, rcpsp_permutation=list(perm), rcpsp_modes=[1, 1, 1])
        s.change_problem(m3)
        expect_eq(starts_of(s), P.sgs(inst3, [1] + [p + 2 for p in perm] + [5], {t: 1 for t in inst3['tasks']}, 20), lambda: 'order %r after change_problem' % (perm,))
        rec.trans()
    rec.state()


def build(ck):
    ck.rule = ('every permutation and mode vector of every small instance decodes to the schedule of the reference serial scheme, whose best makespan is the optimum over all start dates; '
               'satisfy() agrees with the constraints on every vector of start dates')
    ck.scope = 'three tasks and all 8 precedence graphs, four tasks and a third of the 64 (all, thorough), durations 0-3, 1-2 renewable and 0-1 non-renewable resources, calendars, 1-3 modes, tight and loose horizons'
    ND = [[{'R': 1}, {'R': 1}, {'R': 2}], [{'R': 2}, {'R': 2}, {'R': 1}], [{'R': 1}, {'R': 0}, {'R': 1}]]
    N2 = [[{'R': 1, 'S': 1}, {'R': 1, 'S': 0}, {'R': 1, 'S': 2}], [{'R': 2, 'S': 1}, {'R': 0, 'S': 2}, {'R': 1, 'S': 1}]]
    D = [(1, 2, 3), (2, 1, 1), (3, 2, 2), (1, 0, 2)]
    cases = [(e, d, nd, {'R': cap}, (), None, H, m) for e in DAGS3 for d in D for nd in ND for cap, H, m in ((2, 10, 1), (2, 3, 2), (3, 5, 1))]
    cases += [(e, d, nd, {'R': 2, 'S': 2}, (), None, 12, 1) for e in DAGS3 for d in D[:3] for nd in N2]
    N4 = [[{'R': 1}, {'R': 2}, {'R': 1}, {'R': 1}], [{'R': 2}, {'R': 1}, {'R': 3}, {'R': 1}]]
    cases += [(e, d, nd, {'R': cap}, (), None, H, 1) for e in P.dags(4)[::1 if THOROUGH else 3] for d in ((1, 2, 3, 1), (2, 3, 1, 2), (3, 0, 2, 2)) for nd in N4 for cap in (2, 3) for H in (12, 6)
              if max(q['R'] for q in nd) <= cap]
    ck.run(cases, decode, 'renewable resources', chunk=8, timeout=300)
    cases = [(e, d, N2[i], {'R': 2, 'S': cap}, ('S',), None, H, 1) for e in DAGS3 for d in D[:3] for i in (0, 1) for cap in (2, 3, 4) for H in (7, 12)]
    more = [{0: {2: (1, {'R': 2, 'S': 0})}, 2: {2: (3, {'R': 1, 'S': 0})}}, {1: {2: (2, {'R': 1, 'S': 3}), 3: (1, {'R': 2, 'S': 1})}}]
    cases += [(e, d, N2[i], {'R': 2, 'S': cap}, nr, mm, 12, 1) for e in DAGS3[::2] for d in D[:2] for i in (0, 1) for cap in (3, 4) for nr in ((), ('S',)) for mm in more]
    more0 = [{0: {2: (0, {'R': 2, 'S': 2})}}, {2: {2: (0, {'R': 1, 'S': 0}), 3: (0, {'R': 0, 'S': 3})}}]
    cases += [(e, d, N2[i], {'R': 2, 'S': cap}, ('S',), mm, H, 1) for e in DAGS3[::2] for d in ((1, 0, 2), (0, 2, 1)) for i in (0, 1) for cap in (2, 3, 4) for mm in [None] + more0 for H in (12, 3)]
    ck.run(cases, decode, 'non-renewable resources and modes', chunk=4, timeout=300)
    CAL = [[2, 1, 2, 2, 0, 2, 2, 2, 2, 2, 2, 2, 2], [1, 2, 1, 2, 2, 1, 2, 1, 2, 1, 2, 2, 2], [0, 0, 2, 2, 2, 1, 1, 2, 2, 2, 0, 0, 0]]
    cases = [(e, d, nd, {'R': cal}, (), None, 12, 1) for e in DAGS3 for d in D for nd in ND[:2] for cal in CAL]
    cases += [(e, d, N2[0], {'R': CAL[1], 'S': 3}, nr, more[0], 12, 1) for e in DAGS3[::2] for d in D[:2] for nr in ((), ('S',))]
    ck.run(cases, decode, 'calendars', chunk=4, timeout=300)
    fs = [(e, d, nd, {'R': 2}, (), None, 4) for e in DAGS3 for d in D[:2] for nd in ND]
    fs += [(e, D[1], N2[i], {'R': 2, 'S': 3}, nr, more[i], 3) for e in DAGS3[::2] for i in (0, 1) for nr in ((), ('S',))]
    fs += [(e, D[1], N2[i], {'R': CAL[1], 'S': 3}, nr, None, 4) for e in DAGS3[::2] for i in (0, 1) for nr in ((), ('S',))]
    fs += [(e, D[1], N2[0], {'R': CAL[i], 'S': [2 + i % 2] + [4] * 20}, nr, None, 4, m) for e in DAGS3[::3] for i in (0, 1) for nr in ((), ('S',)) for m in (1, 2, 3)]
    fs += [(e, d, ND[0], {'R': 2}, (), None, 4, m) for e in DAGS3[::3] for d, m in ((D[0], 3), (D[3], 1))]
    ck.run(fs, feasibility, 'feasibility', chunk=1, timeout=300)
    ck.run([(e, d, nd, {'R': 2}, None, 14) for e in DAGS3 for d in D[:3] for nd in ND[:2]] + [(e, D[0], N2[1], {'R': 2, 'S': 3}, more[0], 14) for e in DAGS3[::3]] +
           [(e, d, ND[0], {'R': 2}, None, H, (), m) for e in DAGS3 for d in D[:2] for H, m in ((6, 1), (3, 2), (4, 1))] +
           [(e, d, nd, {'R': cal}, None, 12, ()) for e in DAGS3[::2] for d in D[:2] for nd in ND[:2] for cal in CAL] +
           [(e, d, N2[i], {'R': 2, 'S': cap}, mm, 9, ('S',), 1, w) for e in DAGS3[::3] for d in ((1, 0, 2), (2, 1, 1)) for i in (0, 1) for cap in (3, 4) for mm, w in ((None, False), (more[0], True), (more0[0], False))],
           partial, 'partial schedules', chunk=1, timeout=300)
    ck.run([(e, d, q, cap, h, hc, k) for e in ((), ((0, 1),), ((1, 2),), ((0, 2), (1, 2))) for d in D[:3] for q in ((1, 1, 2), (2, 1, 1)) for cap in (2,) for h in (1, 2) for hc in (1, 2) for k in (2, 1, 3) if k == 2 or hc == 1 and cap == 2 and q[0] == 1],
           helpers, 'helper tasks', chunk=4, timeout=300)
    ck.run([0, 1], registers, 'declarations', chunk=1)
    ck.sample({'edges': [[0, 1]], 'durations': [1, 2, 3], 'needs': [1, 1, 2], 'capacity': 2})
