"""C32: neighbourhoods, initial solutions and large neighbourhood searches of knapsacks, colourings and facility location."""
import itertools
from checks import mipstand  # noqa
from checks import nogurobi  # noqa
from checks.c25_models import C, D, F, Graph, K, data_free  # noqa
from checks.c26_combsolvers import milp, cp, params, fits, close
from checks.neigh import every, programme, text
from mc.core import expect, expect_eq, THOROUGH
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from skdecide.builders.discrete_optimization.knapsack.solvers import knapsack_lns_solver as KN, knapsack_lns_cp_solver as KNC, lp_solvers as KL, cp_solvers as KC
    from skdecide.builders.discrete_optimization.coloring.solvers import coloring_lp_lns_solvers as CN, coloring_cp_lns_solvers as CNC, coloring_lp_solvers as CL, coloring_cp_solvers as CC
    from skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring import GreedyColoring
    from skdecide.builders.discrete_optimization.facility.solvers import facility_lp_lns_solver as FN, facility_lp_solver as FL, facility_cp_solvers as FC
    from skdecide.builders.discrete_optimization.generic_tools import lns_mip as LM, lns_cp as LC
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import MilpSolverName
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage

FRACTIONS = (0., 0.34, 0.5, 0.8, 1.)


def knap(items, cap):
    return K.KnapsackModel([K.Item(*i) for i in items], cap)


def graph(n, edges, names):
    nm = [chr(97 + i) for i in range(n)] if names else list(range(n))
    return C.ColoringProblem(Graph([(x, {'name': x}) for x in nm], [(nm[a], nm[b], {}) for a, b in edges], undirected=True))


def place(fac, cust):
    return F.FacilityProblem2DPoints(len(fac), len(cust), [F.Facility(i, f[0], f[1], F.Point(*f[2])) for i, f in enumerate(fac)], [F.Customer(i, q[0], F.Point(*q[1])) for i, q in enumerate(cust)])


def stored(problem, good, bad, agg):
    """a storage where good is the best of the solutions"""
    sense = params(problem).sense_function
    sols = [(s, agg(s)) for s in bad + [good]]
    st = ResultStorage(list_solution_fits=sols, mode_optim=sense)
    expect(st.get_best_solution_fit()[0] is good, 'harness: best solution')
    return st


def aggregate(problem):
    return D.build_aggreg_function_and_params_objective(problem=problem, params_objective_function=params(problem))[0]


# ------------------------------------------------------------------------------------------------ knapsacks


def knapsacks(rec, c):
    items, cap, how = c
    n = len(items)
    m = knap(items, cap)
    agg = aggregate(m)
    allt = list(itertools.product((0, 1), repeat=n))
    val = lambda t: sum(x * i[1] for x, i in zip(t, items))
    sol = lambda t: K.KnapsackSolution(problem=m, value=val(t), weight=sum(x * i[2] for x, i in zip(t, items)), list_taken=list(t))
    good = [t for t in allt if sum(x * i[2] for x, i in zip(t, items)) <= cap]
    for t in good:
        store = stored(m, sol(t), [sol(b) for b in good if val(b) < val(t)][:2], agg)
        for f in FRACTIONS:
            refs = {frozenset(p for p in allt if all(p[i] == t[i] for i in sub)) for sub in itertools.combinations(range(n), int(f * n))}
            if how == 'lp':
                s = KL.LPKnapsack(m, milp_solver_name=MilpSolverName.CBC)
                s.init_model()
                x = s.variable_decision['x']
                point = lambda p: {x[i[0]].idx: v for i, v in zip(items, p)}
                programme(rec, s, lambda: KN.ConstraintHandlerKnapsack(m, fraction_to_fix=f), store, point, allt, t, refs, 'knapsack %r fixing %r' % (t, f))
            else:
                s = KC.CPKnapsackMZN2(m)
                text(rec, s, lambda: KNC.ConstraintHandlerKnapsack(m, fraction_to_fix=f), store, allt, [('taken', '1..%d' % n, n)], t, refs, 'knapsack %r fixing %r' % (t, f))
    for method, ref in ((KN.InitialKnapsackMethod.GREEDY, KN.GreedyBest(m, params_objective_function=params(m)).solve().get_best_solution().value), (KN.InitialKnapsackMethod.DUMMY, 0)):
        st = KN.InitialKnapsackSolution(m, initial_method=method, params_objective_function=params(m)).get_starting_solution()
        expect(close(fits(m, st, 'initial').value, ref), lambda: 'initial knapsack')


def knapsack_search(rec, c):
    items, cap, how, f, method, n_iter, skip = c
    m = knap(items, cap)
    n = len(items)
    opt = max(sum(x * i[1] for x, i in zip(t, items)) for t in itertools.product((0, 1), repeat=n) if sum(x * i[2] for x, i in zip(t, items)) <= cap)
    init = KN.InitialKnapsackSolution(m, initial_method=method, params_objective_function=params(m))
    first = init.get_starting_solution().get_best_solution_fit()[1]

    def once():
        if how == 'lp':
            s = KL.LPKnapsack(m, milp_solver_name=MilpSolverName.CBC)
            s.init_model()
            return LM.LNS_MILP(m, s, init, KN.ConstraintHandlerKnapsack(m, fraction_to_fix=f), params_objective_function=params(m)).solve_lns(parameters_milp=milp(), nb_iteration_lns=n_iter, skip_first_iteration=skip)
        s = KC.CPKnapsackMZN2(m)
        s.init_model()
        return LC.LNS_CP(m, s, init, KNC.ConstraintHandlerKnapsack(m, fraction_to_fix=f), params_objective_function=params(m)).solve_lns(parameters_cp=cp(), nb_iteration_lns=n_iter, skip_first_iteration=skip)
    for st in every(once, subsets=True):
        best = fits(m, st, 'search')
        for s, _ in st.list_solution_fits:
            expect(sum(x * i[2] for x, i in zip(s.list_taken, items)) <= cap, 'items fit')
        expect(skip or best.value >= first, lambda: 'worse than the initial solution')
        if int(f * n) == 0 or skip:
            expect(close(best.value, opt), lambda: 'nothing fixed: %r instead of %r' % (best.value, opt))
        rec.state()


# ------------------------------------------------------------------------------------------------ colourings


def colourings(rec, c):
    n, edges, names, how = c
    m = graph(n, edges, names)
    agg = aggregate(m)
    good = [t for t in itertools.product(range(n), repeat=n) if all(t[a] != t[b] for a, b in edges) and set(t) == set(range(max(t) + 1))]
    if not THOROUGH:
        good = good[:6] + good[6::9]
    for t in good:
        k = max(t) + 1
        sol = lambda u: C.ColoringSolution(m, list(u))
        worse = [u for u in good if agg(sol(u)) < agg(sol(t))][:1]
        store = stored(m, sol(t), [sol(u) for u in worse], agg)
        for f in FRACTIONS:
            subs = list(itertools.combinations(range(n), int(f * n)))
            if how == 'lp':
                s = CL.ColoringLP_MIP(m, params_objective_function=params(m))
                s.init_model(greedy_start=False)
                x = s.variable_decision['colors_var']
                nb = 1 + max(q for _, q in x)
                if nb < k:
                    continue
                point = lambda p: {x[v, q].idx: int(p[m.graph.nodes_name.index(v)] == q) for v, q in x}
                points = list(itertools.product(range(nb), repeat=n))
                refs = {frozenset(p for p in points if all(p[i] == t[i] for i in sub if t[i] < k - 1)) for sub in subs}
                programme(rec, s, lambda: CN.ConstraintHandlerFixColorsPyMip(m, fraction_to_fix=f), store, point, points, t, refs, 'colouring %r fixing %r' % (t, f))
            else:
                points = list(itertools.product(range(1, min(n, k + 1) + 1), repeat=n))
                one = tuple(q + 1 for q in t)
                refs = {frozenset(p for p in points if all(p[i] == one[i] for i in sub if one[i] < k) and max(p) <= k) for sub in subs}
                text(rec, None, lambda: CNC.ConstraintHandlerFixColorsCP(m, fraction_to_fix=f), store, points, [('color_graph', '1..%d' % n, n)], one, refs, 'colouring %r fixing %r' % (t, f))
    for mod in (CN, CNC):
        for method, want in ((mod.InitialColoringMethod.GREEDY, lambda: GreedyColoring(m, params_objective_function=params(m)).solve().get_best_solution()), (mod.InitialColoringMethod.DUMMY, m.get_dummy_solution)):
            st = mod.InitialColoring(m, initial_method=method, params_objective_function=params(m)).get_starting_solution()
            expect_eq(agg(fits(m, st, 'initial')), agg(want()), 'initial colouring')


def relabel(rec, c):
    n, edges, names = c
    m = graph(n, edges, names)
    agg = aggregate(m)
    p = CNC.PostProcessSolutionColoring(m, params_objective_function=params(m))
    for t in itertools.product(range(n + 2), repeat=n):
        if any(t[a] == t[b] for a, b in edges):
            continue
        s = C.ColoringSolution(m, list(t))
        st = p.build_other_solution(ResultStorage(list_solution_fits=[(s, agg(s))], mode_optim=params(m).sense_function))
        ranks = sorted(set(t))
        want = [ranks.index(x) for x in t]
        got = [list(x.colors) for x, _ in st.list_solution_fits]
        expect(list(t) in got and want in got and all(g in (list(t), want) for g in got), lambda: 'colours %r are counted as %r: %r' % (t, want, got))
        for x, f in st.list_solution_fits:
            expect_eq(f, agg(x), 'fitness')
        expect_eq(len(set(st.get_best_solution().colors)), len(ranks), 'best')
        rec.state()


def colouring_search(rec, c):
    n, edges, names, how, f, method, post, skip = c
    m = graph(n, edges, names)
    chi = min(k for k in range(1, n + 1) if any(all(t[a] != t[b] for a, b in edges) for t in itertools.product(range(k), repeat=n)))
    mod = CN if how == 'lp' else CNC
    init = mod.InitialColoring(m, initial_method=mod.InitialColoringMethod[method], params_objective_function=params(m))
    first = init.get_starting_solution().get_best_solution_fit()[1]
    more = {'post_process_solution': CNC.PostProcessSolutionColoring(m, params_objective_function=params(m))} if post else {}

    def once():
        if how == 'lp':
            s = CL.ColoringLP_MIP(m, params_objective_function=params(m))
            s.init_model(greedy_start=False)
            return LM.LNS_MILP(m, s, init, CN.ConstraintHandlerFixColorsPyMip(m, fraction_to_fix=f), params_objective_function=params(m), **more).solve_lns(parameters_milp=milp(), nb_iteration_lns=2, skip_first_iteration=skip)
        s = CC.ColoringCP(m, params_objective_function=params(m))
        s.init_model(greedy_start=False, nb_colors=n)
        return LC.LNS_CP(m, s, init, CNC.ConstraintHandlerFixColorsCP(m, fraction_to_fix=f), params_objective_function=params(m), **more).solve_lns(parameters_cp=cp(), nb_iteration_lns=2, skip_first_iteration=skip)
    for st in every(once, subsets=True):
        best = fits(m, st, 'search')
        for s, _ in st.list_solution_fits:
            expect(all(s.colors[a] != s.colors[b] for a, b in edges), 'neighbours differ')
        expect(skip or st.get_best_solution_fit()[1] >= first, lambda: 'worse than the initial solution')
        if int(f * n) == 0 or skip:
            expect_eq(len(set(best.colors)), chi, lambda: 'nothing fixed: number of colours')
        rec.state()


# ------------------------------------------------------------------------------------------------ facilities


def facilities(rec, c):
    fac, cust, prune, skip = c
    m = place(fac, cust)
    agg = aggregate(m)
    allt = list(itertools.product(range(len(fac)), repeat=len(cust)))
    good = [t for t in allt if all(sum(q[0] for q, x in zip(cust, t) if x == f) <= fac[f][1] for f in range(len(fac)))]
    s = FL.LP_Facility_Solver_PyMip(m, milp_solver_name=MilpSolverName.CBC, params_objective_function=params(m))
    s.init_model(**prune)
    x = s.variable_decision['x']
    import mip
    free = lambda f, k: isinstance(x[f, k], mip.Var)
    points = [t for t in allt if all(free(f, k) for k, f in enumerate(t))]
    for t in (good if THOROUGH else good[::2]):
        sol = F.FacilitySolution(m, list(t))
        store = stored(m, sol, [F.FacilitySolution(m, list(u)) for u in good if agg(F.FacilitySolution(m, list(u))) < agg(sol)][:1], agg)
        for f in FRACTIONS[1:]:
            # customers whose facility was pruned stay free
            refs = {frozenset(p for p in points if all(p[i] == t[i] for i in sub if free(t[i], i))) for sub in itertools.combinations(range(len(cust)), int(f * len(cust)))}
            point = lambda p: {x[g, k].idx: int(p[k] == g) for g, k in x if free(g, k)}

            def handler():
                h = FN.ConstraintHandlerFacility(m, fraction_to_fix=f, skip_first_iter=skip)
                if skip:
                    before = list(s.model.solver.rows)
                    expect_eq(list(h.adding_constraint_from_results_store(milp_solver=s, result_storage=store)), [], 'nothing is fixed at first')
                    expect_eq(len(s.model.solver.rows), len(before), 'nothing is fixed at first')
                return h
            inside = t if t in points else None
            programme(rec, s, handler, store, point, points + ([] if inside else [t]), t, refs if inside else {frozenset(r | {t}) for r in refs}, 'customers %r fixing %r' % (t, f))


def facility_search(rec, c):
    fac, cust, f, method, prune = c
    m = place(fac, cust)
    allt = list(itertools.product(range(len(fac)), repeat=len(cust)))
    agg = aggregate(m)
    fit = lambda t: all(sum(q[0] for q, x in zip(cust, t) if x == g) <= fac[g][1] for g in range(len(fac)))
    opt = max(agg(F.FacilitySolution(m, list(t))) for t in allt if fit(t))
    init = FN.InitialFacilitySolution(m, initial_method=FN.InitialFacilityMethod[method], params_objective_function=params(m))
    st = init.get_starting_solution()
    t0 = tuple(st.get_best_solution().facility_for_customers)
    first = st.get_best_solution_fit()[1]
    if method == 'DUMMY':
        expect_eq(t0, tuple(m.get_dummy_solution().facility_for_customers), 'dummy solution')
    else:
        expect_eq(t0, tuple(FN.GreedySolverFacility(m, params_objective_function=params(m)).solve().get_best_solution().facility_for_customers), 'greedy solution')
    if not fit(t0):
        return

    def once():
        s = FL.LP_Facility_Solver_PyMip(m, milp_solver_name=MilpSolverName.CBC, params_objective_function=params(m))
        s.init_model(**prune)
        return LM.LNS_MILP(m, s, init, FN.ConstraintHandlerFacility(m, fraction_to_fix=f), params_objective_function=params(m)).solve_lns(parameters_milp=milp(), nb_iteration_lns=2)
    for st in every(once, subsets=True):
        best = fits(m, st, 'search')
        for s, _ in st.list_solution_fits:
            expect(fit(tuple(s.facility_for_customers)), 'capacities')
        expect(st.get_best_solution_fit()[1] >= first, 'worse than the initial solution')
        if not prune:
            expect(close(st.get_best_solution_fit()[1], opt), lambda: 'first iteration without constraints: %r instead of %r' % (st.get_best_solution_fit()[1], opt))
        rec.state()


def own_search(rec, c):
    """the searches which the solvers of facility location have themselves"""
    how, fac, cust, first, f, iters, greedy = c
    m = place(fac, cust)
    allt = list(itertools.product(range(len(fac)), repeat=len(cust)))
    agg = aggregate(m)
    fit = lambda t: all(sum(q[0] for q, x in zip(cust, t) if x == g) <= fac[g][1] for g in range(len(fac)))
    value = {t: agg(F.FacilitySolution(m, list(t))) for t in allt}
    opt = max(value[t] for t in allt if fit(t))
    t0 = tuple((FN.GreedySolverFacility(m).solve().get_best_solution() if greedy else m.get_dummy_solution()).facility_for_customers)

    def once():
        if how == 'CBC':
            s = FL.LP_Facility_Solver_CBC(m, params_objective_function=params(m))
            return s.solve_lns(first, f, iters, greedy_start=greedy)
        if how == 'pymip':
            s = FL.LP_Facility_Solver_PyMip(m, milp_solver_name=MilpSolverName.CBC, params_objective_function=params(m))
            return s.solve_lns(first, f, iters, greedy_start=greedy, parameters_milp=milp())
        s = FC.FacilityCP(m, params_objective_function=params(m))
        return s.solve_lns(f, iters, greedy_start=greedy, cp_model=FC.FacilityCPModel.DEFAULT_INT_LNS)
    if not fit(t0) and (first or how == 'CP'):
        return
    for s, fitness in every(once, subsets=True):
        t = tuple(int(x) for x in s.facility_for_customers)
        expect(fit(t), lambda: '%s: %r does not respect the capacities' % (how, t))
        if fit(t0):
            expect(value[t] >= value[t0] - 1e-7, lambda: '%s: %r is worse than the start %r' % (how, t, t0))
        if not first and how != 'CP' or not f:
            expect(close(value[t], opt), lambda: '%s: iteration without constraints: %r instead of %r' % (how, value[t], opt))
        e = fitness if how == 'pymip' else -fitness['cost'] - fitness['setup_cost'] - 10000 * fitness['capacity_constraint_violation']
        expect(close(e, value[t]), lambda: '%s: value %r of %r' % (how, fitness, t))
        rec.state()
    rec.trans()


def own_colouring(rec, c):
    """the search which the constraint programme of colourings has itself"""
    n, edges, names, f, iters, greedy = c
    m = graph(n, edges, names)
    start = len(set(GreedyColoring(m).solve().get_best_solution().colors)) if greedy else n
    chi = min(k for k in range(1, n + 1) if any(all(t[a] != t[b] for a, b in edges) for t in itertools.product(range(k), repeat=n)))

    def once():
        s = CC.ColoringCP(m, params_objective_function=params(m))
        return s.solve_lns(f, iters, cp(), greedy_start=greedy, cp_model=CC.ColoringCPModel.LNS)
    for s, fitness in every(once, subsets=True):
        expect(all(s.colors[a] != s.colors[b] for a, b in edges), lambda: 'neighbours of the same colour in %r' % (s.colors,))
        expect_eq(fitness, {'nb_colors': len(set(s.colors)), 'nb_violations': 0}, 'value')
        expect(len(set(s.colors)) <= start, lambda: 'more colours than at first: %r' % (s.colors,))
        if not f:
            expect_eq(len(set(s.colors)), chi, 'colours of a search without constraints')
        rec.state()
    rec.trans()


def build(ck):
    IT = [((0, 3, 2), (1, 4, 3), (2, 5, 4)), ((2, 3, 2), (0, 4, 3), (1, 5, 3)), ((4, 7, 3), (9, 2, 3), (1, 6, 1), (2, 1, 1))]
    ck.run([(i, cap, how) for i in IT for cap in (3, 5, 7) for how in ('lp', 'cp')], knapsacks, 'neighbourhoods of knapsacks', chunk=1, timeout=300)
    jobs = [(i, cap, 'lp', f, m, n, skip) for i in IT for cap in (3, 6) for f in (0., 0.5, 0.7) for m in KN.InitialKnapsackMethod for n in (1, 2) for skip in (False, True)]
    jobs += [(IT[k], 5, 'cp', f, m, 1 + (f < 0.5), skip) for k in (1, 2) for f in (0.34, 0.1) for m in KN.InitialKnapsackMethod for skip in (False, True)]
    ck.run(jobs, knapsack_search, 'searches of knapsacks', chunk=1, timeout=300)
    G = [(3, ((0, 1), (1, 2))), (3, ((0, 1), (1, 2), (0, 2))), (4, ((0, 1), (1, 2), (2, 3), (3, 0))), (4, ((0, 2), (0, 3), (1, 3)))]
    ck.run([(n, e, nm, how) for n, e in G for nm, how in ((False, 'lp'), (True, 'lp'), (True, 'cp'))], colourings, 'neighbourhoods of colourings', chunk=1, timeout=300)
    ck.run([(n, e, nm) for n, e in G for nm in (False, True)], relabel, 'colours counted', chunk=1, timeout=300)
    jobs = [(n, e, nm, 'lp', f, me, post, skip) for n, e in G for nm in (False, True) for f in (0., 0.34) for me in ('DUMMY', 'GREEDY') for post, skip in ((False, False), (True, False), (False, True))]
    jobs += [(n, e, True, 'cp', f, me, post, False) for n, e in G[1:3] for f, me, post in ((0.2, 'DUMMY', True), (0.34, 'GREEDY', False))]
    ck.run(jobs, colouring_search, 'searches of colourings', chunk=1, timeout=300)
    FA = [((3., 5, (0, 0)), (2., 4, (4, 0)), (4., 6, (0, 3))), ((1., 3, (0, 0)), (8., 9, (1, 1)), (0., 2, (6, 1)))]
    CU = [((2, (1, 0.5)), (3, (3, 1)), (1, (0, 2)), (4, (4, 3))), ((3, (0.5, 0)), (2, (5, 2)), (2, (2, 2.25)))]
    P = [{}, {'use_matrix_indicator_heuristic': False}, {'n_cheapest': 1, 'n_shortest': 1}, {'n_cheapest': 0, 'n_shortest': 2}]
    ck.run([(f, q, p, skip) for f in FA for q in CU for p in P for skip in (False, True)], facilities, 'neighbourhoods of facilities', chunk=1, timeout=300)
    ck.run([(f, q, fr, me, {}) for f in FA for q in CU for fr in (0.3, 0.5, 1.) for me in ('DUMMY', 'GREEDY')], facility_search, 'searches of facilities', chunk=1, timeout=300)
    LI = [((3, 5, (0, 0)), (2, 4, (4, 0)), (4, 6, (9, 0))), ((7, 9, (0, 0)), (8, 9, (5, 0)))]
    CL1 = [((2, (1, 0)), (3, (3, 0)), (1, (7, 0))), ((3, (6, 0)), (2, (0, 0)), (2, (5, 0)))]
    jobs = [(how, f, q, first, fr, 2, g) for how in ('CBC', 'pymip') for f in LI for q in CL1 for first, fr in ((0., 0.4), (0., 0.7), (0.4, 0.4)) for g in (True, False)]
    jobs += [('CP', LI[i], q, 0., fr, it, g) for i, q, g in ((0, CL1[0], True), (1, CL1[0], False), (1, CL1[1], True)) for fr, it in ((0., 1), (0.4, 2))]
    ck.run(jobs, own_search, 'searches of the solvers of facilities', chunk=1, timeout=300)
    ck.run([(n, e, nm, fr, it, g) for n, e in G[1:3] for nm, fr, it, g in ((True, 0., 1, False), (False, 0.34, 2, True), (True, 0.34, 1, False))], own_colouring, 'search of the solver of colourings', chunk=1, timeout=300)
