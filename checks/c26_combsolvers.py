"""C26: solvers of knapsacks, colourings, facility location, tours and vehicle routing: valid solutions, with the value of their definition, optimal where the method is exact."""
import itertools
import os
import sys
import types
from checks import mipstand  # noqa
from checks import nogurobi  # noqa
from checks.c25_models import C, D, F, FL, FP, Graph, K, T, V, close, close_list, data_free, dist  # noqa
from mc.core import expect, expect_eq, THOROUGH
import numpy as np

os.environ['MZN_SOLVER_PATH'] = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mzn')


class KnapsackSolver:
    """stands for the knapsack solver which this version of ortools has not: exact, by enumeration"""
    KNAPSACK_MULTIDIMENSION_BRANCH_AND_BOUND_SOLVER = 1

    def __init__(self, *a):
        pass

    def Init(self, values, weights, capacities):
        self.data = (list(values), [list(w) for w in weights], list(capacities))

    def Solve(self):
        values, weights, capacities = self.data
        ok = [t for t in itertools.product((0, 1), repeat=len(values)) if all(sum(x * y for x, y in zip(t, w)) <= c for w, c in zip(weights, capacities))]
        self.best = max(ok, key=lambda t: sum(x * y for x, y in zip(t, values)))
        return sum(x * y for x, y in zip(self.best, values))

    def BestSolutionContains(self, i):
        return bool(self.best[i])


import ortools.algorithms  # noqa
if not hasattr(ortools.algorithms, 'pywrapknapsack_solver'):
    ortools.algorithms.pywrapknapsack_solver = sys.modules['ortools.algorithms.pywrapknapsack_solver'] = types.ModuleType('pywrapknapsack_solver')
    ortools.algorithms.pywrapknapsack_solver.KnapsackSolver = KnapsackSolver
with data_free():
    from skdecide.builders.discrete_optimization.knapsack.solvers import greedy_solvers as KG, dyn_prog_knapsack as KD, cp_solvers as KC, lp_solvers as KL
    from skdecide.builders.discrete_optimization.coloring.solvers import greedy_coloring as CG, coloring_cp_solvers as CC, coloring_lp_solvers as CL
    from skdecide.builders.discrete_optimization.facility.solvers import greedy_solvers as FG, facility_cp_solvers as FC
    from skdecide.builders.discrete_optimization.tsp.solver import solver_ortools as TO, tsp_cp_solver as TCP, solver_lp_iterative as TL
    from skdecide.builders.discrete_optimization.vrp.solver import greedy_vrp as VG, solver_ortools as VO
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP, CPSolverName
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp, MilpSolverName


def params(problem):
    return D.get_default_objective_setup(problem)


def cp(intermediate=True):
    return ParametersCP(time_limit=100, pool_solutions=1000, intermediate_solution=intermediate, all_solutions=False, nr_solutions=100)


def milp(every=True):
    p = ParametersMilp.default()
    p.retrieve_all_solution = every
    return p


def fits(problem, store, what):
    """the solutions of a store, with their evaluation, and the best of them"""
    agg = D.build_aggreg_function_and_params_objective(problem=problem, params_objective_function=params(problem))
    expect_eq(store.mode_optim, agg[2].sense_function, lambda: what + ': sense')
    expect(len(store.list_solution_fits) >= 1, lambda: what + ': no solution')
    for s, f in store.list_solution_fits:
        expect(s.problem is problem and close(agg[0](s), f), lambda: '%s: fitness %r of a solution which evaluates to %r' % (what, f, agg[0](s)))
    best, f = store.get_best_solution_fit()
    pick = max if agg[2].sense_function == D.ModeOptim.MAXIMIZATION else min
    expect(close(f, pick(x for _, x in store.list_solution_fits)), lambda: what + ': best solution')
    return best


# ------------------------------------------------------------------------------------------------ knapsacks


def greedy(items, cap, key):
    """values of all greedy packings in decreasing order of the key, whatever the order of equal ones"""
    res = set()
    fit = [i for i in range(len(items)) if items[i][2] <= cap]
    for o in itertools.permutations(fit):
        if all(key(items[a]) >= key(items[b]) for a, b in zip(o[:-1], o[1:])):
            w, t = 0, [0] * len(items)
            for i in o:
                if w + items[i][2] <= cap:
                    t[i] = 1
                    w += items[i][2]
            res.add(tuple(t))
    return res


def knapsacks(rec, c):
    items, cap, slow = c
    n = len(items)
    m = K.KnapsackModel([K.Item(*i) for i in items], cap)
    allt = list(itertools.product((0, 1), repeat=n))
    wt = lambda t: sum(x * i[2] for x, i in zip(t, items))
    val = lambda t: sum(x * i[1] for x, i in zip(t, items))
    opt = max(val(t) for t in allt if wt(t) <= cap)

    def valid(s, what):
        t = tuple(int(x) for x in s.list_taken)
        expect(len(t) == n and set(t) <= {0, 1} and wt(t) <= cap, lambda: '%s: %r does not fit' % (what, t))
        expect(close(s.value, val(t)) and close(s.weight, wt(t)), lambda: '%s: value %r and weight %r of %r' % (what, s.value, s.weight, t))
        rec.state()
        return t

    def exact(store, what):
        for s, _ in store.list_solution_fits:
            valid(s, what)
        expect(close(fits(m, store, what).value, opt), lambda: '%s: %r is not the optimum %r' % (what, store.get_best_solution_fit()[0].value, opt))
        rec.trans()
    density = greedy(items, cap, lambda i: i[1] / i[2])
    penalty = greedy(items, cap, lambda i: i[1] / i[2] - i[2])
    for f, ref in ((None, density), (KG.compute_density, density), (KG.compute_density_and_penalty, penalty)):
        t = valid(KG.greedy_using_queue(m, f) if f else KG.greedy_using_queue(m), 'greedy')
        expect(t in ref, lambda: 'greedy packing %r instead of one of %r' % (t, ref))
    best = {val(a) if val(a) > val(b) else val(b) for a in density for b in penalty}
    expect(val(valid(KG.best_of_greedy(m), 'best of greedy')) in best, lambda: 'best of the greedy packings')
    for p in (None, params(m)):
        st = KG.GreedyBest(m, params_objective_function=p)
        st.init_model()
        st = st.solve()
        expect(val(valid(fits(m, st, 'greedy solver'), 'greedy solver')) in best, lambda: 'greedy solver')
        st = KG.GreedyDummy(m, params_objective_function=p).solve()
        expect_eq(valid(fits(m, st, 'dummy'), 'dummy'), (0,) * n, lambda: 'dummy solver')
    for gs in (False, True):
        for kw in ({}, {'max_items': n + 1}, {'max_items': 100, 'max_time_seconds': 1000, 'stop_after_n_item': True}):
            for name in ('solve', 'solve_np'):
                s = KD.KnapsackDynProg(m)
                s.init_model()
                exact(getattr(s, name)(greedy_start=gs, **kw), 'dynamic programming %s %r %r' % (name, gs, kw))
                exact(getattr(s, name)(greedy_start=gs, **kw), 'again')
    s = KD.KnapsackDynProg(m)
    for name, gs in itertools.product(('solve', 'solve_np'), (False, True, False)):
        exact(getattr(s, name)(greedy_start=gs), 'dynamic programming, once more, %s %r' % (name, gs))
    for name in ('solve', 'solve_np'):
        for k in range(1, n + 1):
            for s, _ in getattr(KD.KnapsackDynProg(m), name)(max_items=k).list_solution_fits:
                valid(s, 'dynamic programming of some items')
    s = KL.KnapsackORTools(m, params_objective_function=params(m))
    s.init_model()
    exact(s.solve(), 'ortools')
    for warm in (None, {items[0][0]: 1}, {i[0]: 0 for i in items}):
        s = KL.LPKnapsackCBC(m, params_objective_function=params(m))
        s.init_model(**({} if warm is None else {'warm_start': warm}))
        exact(s.solve(), 'CBC')
    if slow:
        for warm in ({}, {items[0][0]: 1}):
            for every in (False, True):
                s = KL.LPKnapsack(m, milp_solver_name=MilpSolverName.CBC)
                s.init_model(warm_start=warm)
                exact(s.solve(parameters_milp=milp(every)), 'integer programme')
        for cl in (KC.CPKnapsackMZN, KC.CPKnapsackMZN2):
            for inter in (False, True):
                s = cl(m)
                s.init_model()
                exact(s.solve(cp(inter)), 'constraint programme %s' % cl.__name__)


# ------------------------------------------------------------------------------------------------ colourings


def colourings(rec, c):
    n, edges, names, slow = c
    nm = [chr(97 + i) for i in range(n)] if names else list(range(n))
    m = C.ColoringProblem(Graph([(x, {'name': x}) for x in nm], [(nm[a], nm[b], {}) for a, b in edges], undirected=True))
    chi = min(k for k in range(1, n + 1) if any(all(t[a] != t[b] for a, b in edges) for t in itertools.product(range(k), repeat=n)))

    def valid(s, what):
        expect(len(s.colors) == n and all(s.colors[a] != s.colors[b] for a, b in edges), lambda: '%s: %r is no colouring of %r' % (what, s.colors, edges))
        rec.state()
        return len(set(s.colors))

    def exact(store, what):
        for s, _ in store.list_solution_fits:
            valid(s, what)
        expect_eq(valid(fits(m, store, what), what), chi, lambda: what + ': number of colours')
        rec.trans()
    ks = []
    for st in CG.NXGreedyColoringMethod:
        for verbose in (False, True):
            store = CG.GreedyColoring(m, params_objective_function=params(m) if verbose else None).solve(strategy=st, verbose=verbose)
            s = fits(m, store, st.name)
            expect_eq(sorted(set(s.colors)), list(range(len(set(s.colors)))), lambda: 'colours of the greedy colouring')
            ks.append((st.name, valid(s, st.name)))
    expect(dict(ks)['best'] == chi if max(dict(ks).values()) == chi else dict(ks)['best'] <= min(v for k, v in ks if k != 'random_sequential'), lambda: 'best colouring among %r' % (ks,))
    expect_eq(dict(ks)['best'], valid(CG.GreedyColoring(m).solve().get_best_solution(), 'default'), lambda: 'the best strategy by default')
    if not slow or not edges:
        return
    for kw in ({}, {'greedy_start': False}, {'use_cliques': True}, {'greedy_start': False, 'use_cliques': True}):
        s = CL.ColoringLP_MIP(m, params_objective_function=params(m))
        s.init_model(**kw)
        exact(s.solve(parameters_milp=milp()), 'integer programme %r' % (kw,))
    for model in (CC.ColoringCPModel.DEFAULT, CC.ColoringCPModel.CLIQUES):
        for kw in ({}, {'greedy_start': False}, {'nb_colors': chi}, {'nb_colors': n}):
            s = CC.ColoringCP(m, params_objective_function=params(m))
            exact(s.solve(parameters_cp=cp('nb_colors' in kw), cp_model=model, **kw), 'constraint programme %s %r' % (model.name, kw))


# ------------------------------------------------------------------------------------------------ facilities


def facilities(rec, c):
    fac, cust, slow = c
    m = F.FacilityProblem2DPoints(len(fac), len(cust), [F.Facility(i, f[0], f[1], F.Point(*f[2])) for i, f in enumerate(fac)], [F.Customer(i, q[0], F.Point(*q[1])) for i, q in enumerate(cust)])
    d = [[dist(f[2], q[1]) for q in cust] for f in fac]

    def cost(t, integer=False):
        g = int if integer else (lambda x: x)
        return sum(g(fac[f][0]) for f in set(t)) + sum(g(d[f][k]) for k, f in enumerate(t))

    def fit(t):
        return all(sum(q[0] for q, x in zip(cust, t) if x == f) <= fac[f][1] for f in range(len(fac)))
    good = [t for t in itertools.product(range(len(fac)), repeat=len(cust)) if fit(t)]
    rec.states += len(good)
    # the greedy solver fills the facilities one after the other
    want, f, left = [], 0, [x[1] for x in fac]
    for q in cust:
        if left[f] < q[0]:
            f += 1
            if f == len(fac) or left[f] < q[0]:
                want = None
                break
        left[f] -= q[0]
        want.append(f)
    if want is not None:
        for p in (None, params(m)):
            expect_eq(list(fits(m, FG.GreedySolverFacility(m, params_objective_function=p).solve(), 'greedy').facility_for_customers), want, lambda: 'greedy solution')
    if not good:
        return
    opt = min(cost(t) for t in good)
    cheap = sorted(range(len(fac)), key=lambda i: fac[i][0])
    distinct = len({x[0] for x in fac}) == len(fac) and all(len({d[i][k] for i in range(len(fac))}) == len(fac) for k in range(len(cust)))
    grid = [(10, 10), (len(fac), 1), (1, len(fac))] + ([(1, 1), (1, 2), (2, 1), (0, 1), (0, 2), (2, 0)] if distinct else [])
    for g in [None, False] + grid:
        kw = {} if g is None else {'use_matrix_indicator_heuristic': False} if g is False else {'n_cheapest': g[0], 'n_shortest': g[1]}
        nc, ns = g if g else (len(fac), len(fac))
        allowed = [{f for f in range(len(fac)) if f in cheap[:nc] or f in sorted(range(len(fac)), key=lambda i: d[i][k])[:ns]} for k in range(len(cust))]
        ok = [t for t in good if all(f in a for f, a in zip(t, allowed))]
        if not ok:
            continue
        best = min(cost(t) for t in ok)
        s = FL.LP_Facility_Solver_CBC(m, params_objective_function=params(m))
        if g is None or slow:
            s.init_model(**kw)
        sol, ev = s.solve(**kw)
        t = tuple(sol.facility_for_customers)
        expect(t in ok and close(cost(t), best) and close(ev['cost'] + ev['setup_cost'], cost(t)), lambda: 'CBC with %r: %r of cost %r, optimum %r' % (kw, t, cost(t), best))
        s = FL.LP_Facility_Solver_PyMip(m, milp_solver_name=MilpSolverName.CBC, params_objective_function=params(m))
        t = tuple(fits(m, s.solve(parameters_milp=milp(), **kw), 'integer programme').facility_for_customers)
        expect(t in ok and close(cost(t), best), lambda: 'integer programme with %r: %r of cost %r, optimum %r' % (kw, t, cost(t), best))
        rec.trans(2)
    if slow:
        iopt = min(cost(t, True) for t in good)
        s = FC.FacilityCP(m, params_objective_function=params(m))
        sol, ev = s.solve()
        t = tuple(sol.facility_for_customers)
        expect(t in good and cost(t, True) == iopt and close(ev['cost'] + ev['setup_cost'], cost(t)), lambda: 'constraint programme: %r of cost %r, optimum %r' % (t, cost(t, True), iopt))
        rec.trans()


# ------------------------------------------------------------------------------------------------ tours and vehicles


def patiently(f):
    """searches limited in time get more of it before their result counts"""
    for t in (0.2, 2):
        try:
            return f(t)
        except Exception:
            pass
    f(15)


def tours(rec, c):
    pts, s, e, slow = c
    n = len(pts)
    m = T.TSPModel2D([T.Point2D(*map(float, p)) for p in pts], n, s, e)
    s0, e0 = s or 0, e or 0
    inner = [i for i in range(n) if i not in (s0, e0)]
    le = lambda p, g=(lambda x: x): sum(g(dist(pts[a], pts[b])) for a, b in zip((s0,) + tuple(p), tuple(p) + (e0,)))
    every = list(itertools.permutations(inner))
    opt = min(map(le, every))
    rec.states += len(every)

    def exact(store, what, g=None):
        sol = fits(m, store, what)
        p = tuple(int(x) for x in sol.permutation)
        expect(sorted(p) == inner and (sol.start_index, sol.end_index) == (s0, e0) and m.satisfy(sol), lambda: '%s: %r is no tour from %d to %d' % (what, p, s0, e0))
        if g:
            expect_eq(le(p, g), min(le(q, g) for q in every), lambda: '%s: length of %r' % (what, p))
        else:
            expect(le(p) <= opt + 1e-4, lambda: '%s: %r of length %r, optimum %r' % (what, p, le(p), opt))
        rec.trans()
    for b in (TL.build_graph_complete, TL.build_graph_pruned):
        if b is TL.build_graph_pruned and s0 != e0 and n < 3:
            continue
        x = TL.LP_TSP_Iterative(m, graph_builder=b, params_objective_function=params(m) if slow else None)
        x.init_model(method=TL.MILPSolver.CBC)
        exact(x.solve(plot=False), 'iterative integer programme %s' % b.__name__)
    if slow:
        def routed(t):
            x = TO.TSP_ORtools(m, params_objective_function=params(m))
            x.init_model()
            x.search_parameters.time_limit.seconds = int(t)
            x.search_parameters.time_limit.nanos = int(1e9 * (t - int(t)))
            exact(x.solve(), 'routing')
        patiently(routed)
        for k in (TCP.TSP_CPModel.INT_VERSION, TCP.TSP_CPModel.FLOAT_VERSION):
            x = TCP.TSP_CP_Solver(m, model_type=k, params_objective_function=params(m))
            x.init_model()
            exact(x.solve(max_time_seconds=100), 'constraint programme %r' % k, int if k == TCP.TSP_CPModel.INT_VERSION else None)


def shortest(pts, s, e):
    """length of the shortest path from s to e (a tour when s == e) through all points: one table entry per set of points and last point"""
    inner = [i for i in range(len(pts)) if i not in (s, e)]
    best = {(1 << k, k): dist(pts[s], pts[i]) for k, i in enumerate(inner)}
    done = 0
    for _ in range(len(inner) - 1):
        new = {}
        for (mask, k), v in best.items():
            for j, i in enumerate(inner):
                if not mask >> j & 1:
                    q = (mask | 1 << j, j)
                    w = v + dist(pts[inner[k]], pts[i])
                    if w < new.get(q, float('inf')):
                        new[q] = w
        done += len(best)
        best = new
    return min(v + dist(pts[inner[k]], pts[e]) for (_, k), v in best.items()), done + len(best)


def clusters(rec, c):
    """points in clusters, and clusters of clusters: subtours are only cut round after round"""
    pts, s, e = c
    n = len(pts)
    m = T.TSPModel2D([T.Point2D(*map(float, p)) for p in pts], n, s, e)
    opt, k = shortest(pts, s, e)
    rec.states += k
    x = TL.LP_TSP_Iterative(m, graph_builder=TL.build_graph_complete)
    x.init_model(method=TL.MILPSolver.CBC)
    sol = fits(m, x.solve(plot=False), 'clusters')
    p = [s] + [int(i) for i in sol.permutation] + [e]
    expect(sorted(p[1:-1]) == [i for i in range(n) if i not in (s, e)] and m.satisfy(sol), lambda: '%r is no tour' % (p,))
    got = sum(dist(pts[a], pts[b]) for a, b in zip(p, p[1:]))
    expect(got <= opt + 1e-4, lambda: 'clusters %r: %r of length %r, optimum %r' % (c, p, got, opt))
    rec.trans()


def vehicles(rec, c):
    pts, dem, caps, starts, ends = c
    n, nv = len(pts), len(caps)
    m = V.VrpProblem2D(nv, list(caps), n, [V.Customer2D(i, q, float(p[0]), float(p[1])) for i, (p, q) in enumerate(zip(pts, dem))], list(starts), list(ends))
    inner = [i for i in range(n) if i not in starts and i not in ends]

    def total(paths):
        return sum(dist(pts[a], pts[b]) for p, s, e in zip(paths, starts, ends) for a, b in zip((s,) + tuple(p), tuple(p) + (e,)))

    def load(p, s):
        return dem[s] + sum(dem[i] for i in p)
    every = []
    for o in itertools.permutations(inner):
        for cut in itertools.combinations_with_replacement(range(len(o) + 1), nv - 1):
            k = (0,) + cut + (len(o),)
            every.append([list(o[a:b]) for a, b in zip(k[:-1], k[1:])])
    ok = [p for p in every if all(load(x, s) <= q for x, s, q in zip(p, starts, caps))]
    rec.states += len(ok)

    def parts(sol):
        p = [[int(x) for x in q] for q in sol.list_paths]
        expect(sorted(x for q in p for x in q) == inner and len(p) == nv and (list(sol.list_start_index), list(sol.list_end_index)) == (list(starts), list(ends)), lambda: 'paths %r' % (p,))
        return p
    for pf in (None, params(m)):
        expect_eq([list(q) for q in fits(m, VG.GreedyVRPSolver(m, params_objective_function=pf).solve(), 'greedy').list_paths], [list(q) for q in V.trivial_solution(m)[0].list_paths], lambda: 'paths of the greedy solver')
    if not ok:
        return
    for a in VO.FirstSolutionStrategy:
        for b in VO.LocalSearchMetaheuristic:
            def routed(t):
                s = VO.VrpORToolsSolver(m, params_objective_function=params(m))
                s.init_model(first_solution_strategy=a, local_search_metaheuristic=b)
                s.search_parameters.time_limit.nanos = int(1e9 * (t - int(t)))
                p = parts(fits(m, s.solve(limit_time_s=int(t)), 'routing'))
                expect(all(load(x, st) <= q for x, st, q in zip(p, starts, caps)), lambda: 'routing: %r overloads a vehicle' % (p,))
                expect(total(p) <= min(map(total, ok)) + 1e-4, lambda: 'routing %s %s: %r of length %r, optimum %r' % (a.name, b.name, p, total(p), min(map(total, ok))))
            patiently(routed)
            rec.trans()


def graphs(n):
    """graphs with n nodes, one of each isomorphism class"""
    seen, res = set(), []
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(2 ** len(pairs)):
        e = [p for i, p in enumerate(pairs) if k >> i & 1]
        key = min(tuple(sorted(tuple(sorted((q[a], q[b]))) for a, b in e)) for q in itertools.permutations(range(n)))
        if key not in seen:
            seen.add(key)
            res.append(e)
    return res


def build(ck):
    ck.rule = 'the real solvers run on every small instance of a family and their solutions are compared with the enumeration of all solutions (optimum, or the set of results of the announced heuristic)'
    ck.scope = 'knapsacks of up to 5 items, graphs of up to 6 nodes, 3 facilities x 4 customers, tours of up to 6 nodes and clustered ones of up to 12 (15 in the thorough tier), 2 vehicles x 4 customers'
    IT = [((0, 3, 2), (1, 4, 3), (2, 5, 4)), ((2, 3, 2), (0, 4, 3), (1, 5, 3)), ((0, 1, 1),), ((0, 2, 1), (1, 2, 1), (2, 3, 2), (3, 1, 5)), ((4, 0, 3), (9, 2, 3), (1, 6, 1), (2, 1, 1)), ((3, 6, 4), (1, 10, 5), (0, 12, 6), (2, 3, 2), (4, 7, 3))]
    FR = [((0, 0.5, 2), (1, 0.75, 1), (2, 1.5, 3)), ((1, 2.25, 1), (2, 2.75, 2), (0, 0.6, 1), (3, 1.4, 1))]
    ck.run([(i, cap, cap in (1, 4, 6)) for i in IT for cap in range(0, 12)] + [(i, cap, False) for i in FR for cap in range(6)], knapsacks, 'knapsacks', chunk=1, timeout=300)
    G = [(n, tuple(e)) for n in (1, 2, 3, 4, 5) for e in graphs(n)]
    crown = (6, tuple((a, b) for a in (0, 2, 4) for b in (1, 3, 5) if b != a + 1))
    W5 = (6, tuple((i, (i + 1) % 5) for i in range(5)) + tuple((5, i) for i in range(5)))
    SL = [g for g in G if g[0] == 4 and g[1]] + [(5, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 0))), W5]
    ck.run([(n, e, nm, False) for n, e in G + [crown, W5] for nm in (False, True)] + [(n, e, i % 2 == 0, True) for i, (n, e) in enumerate(SL)], colourings, 'colourings', chunk=1, timeout=300)
    FA = [((3., 5, (0, 0)), (2., 4, (4, 0)), (4., 6, (0, 3))), ((1., 3, (0, 0)), (8., 9, (1, 1)), (0., 2, (6, 1))), ((30., 8, (0, 0)), (31., 3, (5, 0)))]
    CU = [((2, (1, 0.5)), (3, (3, 1)), (1, (0, 2)), (4, (4, 3))), ((3, (0.5, 0)), (2, (5, 2)), (2, (2, 2.25))), ((2, (1, 1)), (5, (2, 0)))]
    ck.run([(f, q, True) for f in FA for q in CU] + [(f, tuple(p), False) for f in FA for q in CU for p in itertools.permutations(q)], facilities, 'facilities', chunk=1, timeout=300)
    PT = [((0, 0), (4, 0), (4, 3), (0, 3), (1, 5), (7, 2)), ((0, 0), (1, 4), (2, 1), (3, 5), (5, 0), (2, 1.5)), ((0, 0), (1, 0), (10, 0), (11, 1), (0.5, 1), (10.5, 2))]
    ends = lambda n: [(s, e) for s in [None] + list(range(n)) for e in [None] + list(range(n))]
    ck.run([(p[:n], s, e, n == 4) for p in PT for n in (3, 4, 5) for s, e in ends(n)] + [(p, s, e, True) for p in PT for s, e in ((0, 0), (0, 5), (2, 1))], tours, 'tours', chunk=2, timeout=300)
    tri = lambda x, y: [(x, y), (x + 1, y), (x, y + 1)]
    CL = [tri(0, 0) + tri(9, 1), tri(0, 0) + tri(10, 0) + tri(5, 9), tri(0, 0) + tri(7, 0) + tri(40, 3) + tri(47, 3), tri(0, 0) + tri(0, 6) + tri(31, 0) + tri(30, 7)]
    if THOROUGH:
        CL.append(tri(0, 0) + tri(6, 0) + tri(26, 0) + tri(32, 1) + tri(90, 2))
    ck.run([(tuple(p), s, e) for p in CL for s, e in ((0, 0), (0, len(p) - 1), (1, 4))], clusters, 'clustered tours', chunk=1, timeout=300)
    VP = [((0, 0), (1, 0), (0, 1), (3, 3), (4, 3)), ((0, 0), (2, 1), (1, 3), (5, 0), (2, 2))]
    ck.run([(p, d, cp_, (0, s), (0, e)) for p in VP for d in ((0, 1, 1, 1, 1), (0, 2, 1, 3, 1)) for cp_ in ((2, 3), (4, 4), (7, 1)) for s, e in ((0, 0), (1, 0), (0, 1))], vehicles, 'vehicles', chunk=1, timeout=300)
