"""C25: the combinatorial problems (knapsack, tours, colouring, facilities, vehicle routing, travelling thief) evaluate and check their solutions as defined."""
import contextlib
import io
import itertools
import math
import os
import tempfile
from checks import nogurobi  # noqa
from mc.core import expect, expect_eq, THOROUGH
import numpy as np

_listdir, _makedirs, _chdir = os.listdir, os.makedirs, os.chdir


@contextlib.contextmanager
def data_free():
    """import modules which list directories of data that are not there, make directories or move to their own"""
    os.listdir = lambda p='.': _listdir(p) if os.path.isdir(p) else []
    os.makedirs = lambda *a, **k: None
    os.chdir = lambda *a, **k: None
    try:
        yield
    finally:
        os.listdir, os.makedirs, os.chdir = _listdir, _makedirs, _chdir


with data_free():
    from skdecide.builders.discrete_optimization.knapsack import knapsack_model as K, knapsack_parser as KP
    from skdecide.builders.discrete_optimization.tsp import tsp_model as T, common_tools_tsp as TC, tsp_parser as TP
    from skdecide.builders.discrete_optimization.coloring import coloring_model as C, coloring_parser as CP, coloring_toolbox as CT
    from skdecide.builders.discrete_optimization.facility import facility_model as F, facility_parser as FP
    from skdecide.builders.discrete_optimization.facility.solvers import facility_lp_solver as FL
    from skdecide.builders.discrete_optimization.vrp import vrp_model as V, vrp_toolbox as VT, vrp_parser as VP
    from skdecide.builders.discrete_optimization.ttp import ttp_model as P, ttp_parser as PP
from skdecide.builders.discrete_optimization.generic_tools import do_problem as D
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph


def close(a, b):
    return abs(a - b) < 1e-7


def close_list(a, b):
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def register(problem, attrs, objectives, sense, handling, solution_type):
    a = problem.get_attribute_register().dict_attribute_to_type
    for k, v in attrs.items():
        expect(k in a and all(x in a[k]['type'] for x in v), lambda: 'encodings %r' % (a,))
    o = problem.get_objective_register()
    expect_eq({k: v['default_weight'] for k, v in o.dict_objective_to_doc.items()}, objectives, lambda: 'objectives and weights')
    expect_eq((o.objective_sense, o.objective_handling, problem.get_solution_type()), (sense, handling, solution_type), lambda: 'sense, handling and type of solutions')


def frozen(v):
    if isinstance(v, dict):
        return ('d',) + tuple((k, frozen(x)) for k, x in v.items())
    if isinstance(v, (list, tuple, np.ndarray)):
        return ('l',) + tuple(frozen(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ('s', frozenset(v))
    return v


def scramble(v):
    if isinstance(v, np.ndarray):
        v[...] = 77
    elif isinstance(v, list):
        for x in v:
            scramble(x)
        v.append(77)
        v[0] = 77
    elif isinstance(v, dict):
        for x in v.values():
            scramble(x)
        v['changed'] = 77
    elif isinstance(v, set):
        v.add(77)


def independent(s, what):
    """nothing of a copy is shared with the solution, whichever of the two is changed"""
    public = lambda x: {k: v for k, v in vars(x).items() if k not in ('problem', 'list_start_index', 'list_end_index') and not k.startswith('_')}
    for first in (False, True):
        o = s.copy()
        cp = o.copy()
        a, b = (o, cp) if first else (cp, o)
        before = frozen(public(b))
        expect_eq(frozen(public(a)), before, lambda: '%s: copy' % what)
        for v in public(a).values():
            scramble(v)
        expect_eq(frozen(public(b)), before, lambda: '%s: changing %s changes %s' % ((what,) + (('the solution', 'its copy') if first else ('a copy', 'the solution'))))


# ------------------------------------------------------------------------------------------------ knapsack
def knapsack(rec, c):
    items, cap, force, mobj = c
    ks = K.KnapsackModel([K.Item(*i) for i in items], cap, force)
    if mobj:
        ks = K.KnapsackModel_Mobj.from_knapsack(ks)
        expect_eq((ks.max_capacity, ks.list_items, ks.force_recompute_values), (cap, [K.Item(*i) for i in items], force), lambda: 'problem with several objectives')
    n = len(items)
    obj = {'weight_violation': -100000, 'value': 1}
    if mobj:
        obj.update({'heaviest_item': 1, 'weight': -1})
    register(ks, {'list_taken': [D.TypeAttribute.LIST_BOOLEAN, D.TypeAttribute.LIST_BOOLEAN_KNAP]}, obj, D.ModeOptim.MAXIMIZATION,
             D.ObjectiveHandling.MULTI_OBJ if mobj else D.ObjectiveHandling.AGGREGATE, K.KnapsackSolution)
    expect_eq(ks.get_attribute_register().dict_attribute_to_type['list_taken']['n'], n, lambda: 'length of the encoding')

    def want(t):
        v, w = sum(x * i[1] for x, i in zip(t, items)), sum(x * i[2] for x, i in zip(t, items))
        d = {'value': v, 'weight_violation': max(0, w - cap)}
        if mobj:
            d.update({'weight': w, 'heaviest_item': max([i[2] for x, i in zip(t, items) if x] + [0])})
        return d, v, w

    def same(got, t, what):
        d, _, _ = want(t)
        expect(set(got) == set(d) and all(close(got[k], d[k]) for k in d), lambda: '%s of %r: %r instead of %r' % (what, t, got, d))

    dm = ks.get_dummy_solution()
    expect_eq((list(dm.list_taken), dm.value, dm.weight), ([0] * n, 0, 0), lambda: 'dummy solution')
    for t in itertools.product((0, 1), repeat=n):
        rec.state()
        s = K.KnapsackSolution(ks, list(t))
        independent(s, 'packing which is not evaluated')
        d, v, w = want(t)
        expect_eq(bool(ks.satisfy(s)), w <= cap + 0., lambda: 'satisfied by %r' % (t,))
        same(ks.evaluate(s), t, 'evaluation')
        same(ks.evaluate(s), t, 'second evaluation')
        expect(close(s.value, v) and close(s.weight, w) and s.list_taken == list(t), lambda: 'stored value and weight of %r' % (t,))
        expect_eq(bool(ks.satisfy(s)), w <= cap, lambda: 'satisfied by %r once evaluated' % (t,))
        same(ks.evaluate_from_encoding(list(t), 'list_taken'), t, 'encoding')
        if mobj:
            e = ks.evaluate_mobj(s).vector_fitness
            expect(close_list(list(e), [v, -d['heaviest_item']]), lambda: 'vector %r' % (e,))
        independent(s, 'packing')
        p2 = K.KnapsackModel([K.Item(*i) for i in items], cap)
        cp = s.copy()
        old = cp.list_taken
        cp.change_problem(p2)
        old[0] = 77
        expect(list(cp.list_taken) == list(t) and (cp.value, cp.weight) == (s.value, s.weight), lambda: 'solution given to another problem')
        for cp in (s.copy(), s.lazy_copy()):
            expect((cp.value, cp.weight, list(cp.list_taken), cp.problem) == (s.value, s.weight, list(t), ks) and cp == s, lambda: 'copy of %r' % (t,))
        cp = s.copy()
        for i in range(n):
            u = list(t)
            u[i] = 1 - u[i]
            cp = s.copy()
            cp.list_taken[i] = u[i]
            expect(s.list_taken == list(t) and not cp == s, lambda: 'changing a copy of %r' % (t,))
            if force:
                same(ks.evaluate(cp), u, 'evaluation after a change')
                expect_eq(bool(ks.satisfy(cp)), want(u)[2] <= cap, lambda: 'satisfied after a change')
        p2 = K.KnapsackModel([K.Item(*i) for i in items], cap + 1)
        cp = s.copy()
        cp.change_problem(p2)
        expect(cp.problem is p2 and s.problem is ks and p2.evaluate(cp)['weight_violation'] == max(0, w - cap - 1), lambda: 'changing the problem of %r' % (t,))
        rec.trans()


# ------------------------------------------------------------------------------------------------ tours
def tours(rec, c):
    pts, start, end, numba = c
    n = len(pts)
    m = T.TSPModel2D([T.Point2D(*map(float, p)) for p in pts], n, start, end, use_numba=numba)
    s0, e0 = start or 0, end or 0
    inner = [i for i in range(n) if i not in (s0, e0)]
    register(m, {'permutation_from0': [D.TypeAttribute.PERMUTATION], 'permutation': [D.TypeAttribute.PERMUTATION, D.TypeAttribute.PERMUTATION_TSP]}, {'length': 1}, D.ModeOptim.MINIMIZATION,
             D.ObjectiveHandling.SINGLE, T.SolutionTSP)
    a = m.get_attribute_register().dict_attribute_to_type
    expect_eq((list(a['permutation']['range']), a['permutation']['n'], list(a['permutation_from0']['range']), a['permutation_from0']['n']), (inner, len(inner), list(range(len(inner))), len(inner)), lambda: 'ranges of the encodings')
    for i in range(n):
        for j in range(n):
            expect(close(m.evaluate_function_indexes(i, j), dist(pts[i], pts[j])), lambda: 'distance of %d to %d' % (i, j))
    expect_eq(list(m.get_dummy_solution().permutation), inner, lambda: 'dummy tour')
    expect(m.satisfy(m.get_dummy_solution()) is True, lambda: 'dummy tour is one')
    for p in itertools.permutations(inner):
        rec.state()
        legs = [dist(pts[x], pts[y]) for x, y in zip((s0,) + p, p + (e0,))]
        p0 = [inner.index(x) for x in p]
        sols = [T.SolutionTSP(m, s0, e0, list(p)), T.SolutionTSP(problem=m, permutation=list(p)), T.SolutionTSP(problem=m, permutation_from0=list(p0)), T.SolutionTSP(m, s0, e0, np.array(p))]
        for s in sols:
            expect(close(m.evaluate(s)['length'], sum(legs)) and close(s.length, sum(legs)) and close_list(list(s.lengths), legs), lambda: 'length of %r: %r %r instead of %r' % (p, s.length, s.lengths, legs))
            expect_eq((list(s.permutation), list(s.permutation_from0), s.start_index, s.end_index), (list(p), p0, s0, e0), lambda: 'encodings of %r' % (p,))
            expect_eq(m.satisfy(s), True, lambda: 'tour %r from %d to %d' % (p, s0, e0))
        expect_eq((m.convert_perm_from0_to_original_perm(p0), m.convert_original_perm_to_perm_from0(list(p))), (list(p), p0), lambda: 'conversions of %r' % (p,))
        expect(close(m.evaluate_from_encoding(list(p), 'permutation')['length'], sum(legs)) and close(m.evaluate_from_encoding(p0, 'permutation_from0')['length'], sum(legs)), lambda: 'encodings of %r' % (p,))
        s = sols[0]
        independent(s, 'tour')
        for cp in (s.copy(), s.lazy_copy()):
            expect((list(cp.permutation), list(cp.permutation_from0), cp.length, list(cp.lengths), cp.problem, cp.start_index, cp.end_index) == (list(p), p0, s.length, list(s.lengths), m, s0, e0), lambda: 'copy of %r' % (p,))
        cp = s.copy()
        cp.permutation.reverse()
        m.evaluate(cp)
        expect(list(s.permutation) == list(p) and close_list(s.lengths, legs), lambda: 'changing a copy of %r' % (p,))
        m2 = T.TSPModel2D([T.Point2D(2. * x, 2. * y) for x, y in pts], n, start, end, use_numba=False)
        cp = s.copy()
        cp.change_problem(m2)
        expect(cp.problem is m2 and s.problem is m and close(m2.evaluate(cp)['length'], 2 * sum(legs)) and close(s.length, sum(legs)), lambda: 'changing the problem of %r' % (p,))
        rec.trans()
    for r in range(len(inner) + 2):
        for p in itertools.product(range(n), repeat=r):
            if r == len(inner) and sorted(p) == inner:
                continue
            if r > 3 and p[0] > 1:
                continue
            s = T.SolutionTSP(m, s0, e0, list(p), lengths=[], length=0., permutation_from0=[])
            expect_eq(bool(m.satisfy(s)), False, lambda: '%r visits not all the nodes once' % (p,))
            rec.state()
    if inner:
        other = (s0 + 1) % n
        s = T.SolutionTSP(m, other, e0, list(inner), lengths=[], length=0., permutation_from0=[])
        expect_eq(bool(m.satisfy(s)), False, lambda: 'tour from another node')
        s = T.SolutionTSP(m, s0, (e0 + 1) % n, list(inner), lengths=[], length=0., permutation_from0=[])
        expect_eq(bool(m.satisfy(s)), False, lambda: 'tour to another node')


def tools(rec, c):
    pts = [T.Point2D(*map(float, p)) for p in c]
    n = len(pts)
    man = lambda i, j: abs(c[i][0] - c[j][0]) + abs(c[i][1] - c[j][1])
    for meth, ref in ((None, lambda i, j: dist(c[i], c[j])), (man, man)):
        mat = TC.build_matrice_distance(n, pts, meth)
        expect(all(close(mat[i, j], ref(i, j)) for i in range(n) for j in range(n)) and mat.shape == (n, n), lambda: 'matrix of distances of %r' % (c,))
    expect(all(close(TC.length_1(pts[i], pts[j]), man(i, j)) for i in range(n) for j in range(n)), lambda: 'length_1')
    with contextlib.redirect_stdout(io.StringIO()):
        order, mat = TC.build_matrice_distance_np(n, pts)
        expect(all(mat[i, j] == man(i, j) for i in range(n) for j in range(n)), lambda: 'matrix of Manhattan distances of %r' % (c,))
        expect(all(sorted(order[i]) == list(range(n)) and all(man(i, x) <= man(i, y) for x, y in zip(order[i][:-1], order[i][1:])) for i in range(n)), lambda: 'closest points of %r' % (c,))
        if len(set(c)) == n:
            sol, le, _ = TC.closest_greedy(n, pts)
            expect(sorted(sol) == list(range(n)) and sol[0] == 0, lambda: 'greedy tour %r' % (sol,))
            for k in range(1, n):
                expect_eq(man(sol[k - 1], sol[k]), min(man(sol[k - 1], x) for x in range(n) if x not in sol[:k]), lambda: 'the next of %r is not the closest' % (sol[:k],))
            expect(close(le, sum(dist(c[a], c[b]) for a, b in zip(sol, list(sol[1:]) + [sol[0]]))), lambda: 'length of the greedy tour')
    sol, le, _ = TC.baseline_in_order(n, pts)
    expect(list(sol) == list(range(n)) and close(le, sum(dist(c[i], c[(i + 1) % n]) for i in range(n))), lambda: 'tour in order')
    for p in itertools.permutations(range(n)):
        ls, le = TC.compute_length(p, pts, n)
        legs = [dist(c[p[i]], c[p[(i + 1) % n]]) for i in range(n)]
        expect(close_list(ls, legs) and close(le, sum(legs)), lambda: 'length of the cycle %r' % (p,))
        rec.state()
    rec.trans()


# ------------------------------------------------------------------------------------------------ colouring
def colouring(rec, c):
    n, edges, names, und = c
    g = Graph([(names[i], {}) for i in range(n)], [(names[a], names[b], {}) for a, b in edges], undirected=und)
    m = C.ColoringProblem(g)
    idx = {nm: k for k, nm in enumerate(sorted(names[:n]))}
    es = [(idx[names[a]], idx[names[b]]) for a, b in edges]
    register(m, {'colors': [D.TypeAttribute.LIST_INTEGER]}, {'nb_colors': -1, 'nb_violations': -100}, D.ModeOptim.MAXIMIZATION, D.ObjectiveHandling.AGGREGATE, C.ColoringSolution)
    a = m.get_attribute_register().dict_attribute_to_type['colors']
    expect_eq((a['n'], a['arrity']), (n, n), lambda: 'encoding')
    dm = m.get_dummy_solution()
    expect(len(set(dm.colors)) == n and m.satisfy(dm), lambda: 'dummy colouring')
    for col in itertools.product(range(n), repeat=n):
        rec.state()
        v = sum(col[x] == col[y] for x, y in es)
        s = C.ColoringSolution(m, list(col))
        expect_eq(bool(m.satisfy(s)), v == 0, lambda: 'colouring %r of %r' % (col, c))
        w = {'nb_colors': len(set(col)), 'nb_violations': v}
        expect_eq(m.evaluate(s), w, lambda: 'evaluation of %r' % (col,))
        expect_eq((m.evaluate(s), s.nb_color, s.nb_violations, m.count_violations(s)), (w, len(set(col)), v, v), lambda: 'second evaluation of %r' % (col,))
        expect_eq(m.evaluate_from_encoding(list(col), 'colors'), w, lambda: 'encoding %r' % (col,))
        r = s.to_reformated_solution()
        first = []
        for x in col:
            if x not in first:
                first.append(x)
        expect_eq((r.colors, m.evaluate(r), s.colors), ([first.index(x) for x in col], w, list(col)), lambda: 'reformatted %r' % (col,))
        independent(s, 'colouring')
        independent(C.ColoringSolution(m, list(col)), 'colouring which is not evaluated')
        for cp in (s.copy(), s.lazy_copy()):
            expect_eq((cp.colors, cp.nb_color, cp.nb_violations, cp.problem), (list(col), w['nb_colors'], v, m), lambda: 'copy of %r' % (col,))
        cp = s.copy()
        cp.colors[0] = 99
        expect_eq(s.colors, list(col), lambda: 'changing a copy')
        cp = s.copy()
        m2 = C.ColoringProblem(g)
        cp.change_problem(m2)
        expect(cp.problem is m2 and cp.colors == list(col) and s.problem is m, lambda: 'changing the problem')
        rec.trans()
    if und:
        nxg = g.to_networkx()
        with contextlib.redirect_stdout(io.StringIO()):
            cl, not_all = CT.compute_cliques(nxg, None)
            two, part = CT.compute_cliques(nxg, 2)
        adj = {(x, y) for x, y in es} | {(y, x) for x, y in es}
        cq = [q for r in range(1, n + 1) for q in itertools.combinations(range(n), r) if all((x, y) in adj for x, y in itertools.combinations(q, 2))]
        mx = {frozenset(q) for q in cq if not any(set(q) < set(o) for o in cq)}
        expect(sorted(sorted(idx[x] for x in q) for q in cl) == sorted(sorted(q) for q in mx) and not not_all, lambda: 'cliques of %r: %r' % (c, cl))
        expect(len(two) == min(2, len(mx)) and all(frozenset(idx[x] for x in q) in mx for q in two) and (part or len(mx) <= 2), lambda: 'first cliques of %r' % (c,))


# ------------------------------------------------------------------------------------------------ facilities
def facilities(rec, c):
    fac, cust = c
    m = F.FacilityProblem2DPoints(len(fac), len(cust), [F.Facility(i, s, cap, F.Point(*p)) for i, (s, cap, p) in enumerate(fac)], [F.Customer(i, d, F.Point(*p)) for i, (d, p) in enumerate(cust)])
    register(m, {'facility_for_customers': [D.TypeAttribute.LIST_INTEGER]}, {'cost': -1, 'setup_cost': -1, 'capacity_constraint_violation': -10000}, D.ModeOptim.MAXIMIZATION, D.ObjectiveHandling.AGGREGATE, F.FacilitySolution)
    a = m.get_attribute_register().dict_attribute_to_type['facility_for_customers']
    expect_eq((a['n'], a['arrity']), (len(cust), len(fac)), lambda: 'encoding')
    expect_eq(list(m.get_dummy_solution().facility_for_customers), [0] * len(cust), lambda: 'dummy solution')
    for t in itertools.product(range(len(fac)), repeat=len(cust)):
        rec.state()
        used = {f: sum(cust[i][0] for i in range(len(cust)) if t[i] == f) for f in set(t)}
        cost = sum(dist(fac[f][2], cust[i][1]) for i, f in enumerate(t))
        setup = sum(fac[f][0] for f in used)
        viol = sum(max(0, used[f] - fac[f][1]) for f in used)
        s = F.FacilitySolution(m, list(t))
        for e in (m.evaluate(s), m.evaluate_from_encoding(list(t), 'facility_for_customers')):
            expect(close(e['cost'], cost) and close(e['setup_cost'], setup) and close(e['capacity_constraint_violation'], viol), lambda: 'evaluation of %r: %r instead of %r' % (t, e, (cost, setup, viol)))
            expect(set(e['details']) == set(used), lambda: 'facilities used by %r' % (t,))
            for f in used:
                d = e['details'][f]
                expect(close(d['capacity_used'], used[f]) and d['customers'] == {i for i in range(len(cust)) if t[i] == f} and close(d['setup_cost'], fac[f][0])
                       and close(d['cost'], sum(dist(fac[f][2], cust[i][1]) for i in d['customers'])), lambda: 'details of facility %d in %r: %r' % (f, t, d))
        expect_eq(bool(m.satisfy(s)), viol == 0, lambda: 'satisfied by %r' % (t,))
        x = F.FacilitySolution(m, list(t))
        independent(x, 'assignment')
        m.evaluate(x)
        u = t[1:] + ((t[0] + 1) % len(fac),)
        x.facility_for_customers = list(u)
        e, f = m.evaluate(x), m.evaluate(F.FacilitySolution(m, list(u)))
        expect(all(close(e[k], f[k]) for k in e if k != 'details') and e['details'] == f['details'], lambda: 'evaluation of %r which was %r: %r instead of %r' % (u, t, e, f))
        expect(bool(m.satisfy(x)) == (f['capacity_constraint_violation'] == 0), lambda: 'satisfied by %r which was %r' % (u, t))
        x = F.FacilitySolution(m, list(t))
        old = x.facility_for_customers
        m2 = F.FacilityProblem2DPoints(len(fac), len(cust), [F.Facility(i, s + 1, cap, F.Point(*p)) for i, (s, cap, p) in enumerate(fac)], m.customers)
        x.change_problem(m2)
        old[0] = 77
        expect(x.problem is m2 and list(x.facility_for_customers) == list(t) and close(m2.evaluate(x)['setup_cost'], setup + len(used)), lambda: 'changing the problem of %r' % (t,))
        s.dict_details = m.evaluate(s)
        independent(s, 'assignment with details')
        for cp in (s.copy(), s.lazy_copy()):
            expect(list(cp.facility_for_customers) == list(t) and cp.problem is m and cp.dict_details == s.dict_details, lambda: 'copy of %r' % (t,))
        cp = s.copy()
        cp.facility_for_customers[0] = -1
        cp.dict_details['details'].clear()
        expect(list(s.facility_for_customers) == list(t) and set(s.dict_details['details']) == set(used), lambda: 'changing a copy of %r' % (t,))
        rec.trans()
    costs, closest, mat = FL.compute_length_matrix(m)
    D0 = [[dist(f[2], k[1]) for k in cust] for f in fac]
    expect(close_list(list(costs), [f[0] for f in fac]) and all(close_list(list(mat[i]), D0[i]) for i in range(len(fac))), lambda: 'costs and distances of the facilities')
    for k in range(len(cust)):
        o = [int(x) for x in closest[:, k]]
        expect(sorted(o) == list(range(len(fac))) and all(D0[x][k] <= D0[y][k] for x, y in zip(o[:-1], o[1:])), lambda: 'closest facilities of customer %d' % k)
    if len({f[0] for f in fac}) == len(fac) and all(len({r[k] for r in D0}) == len(fac) for k in range(len(cust))):
        for nc in range(len(fac) + 2):
            for ns in range(len(fac) + 2):
                ind, mat = FL.prune_search_space(m, nc, ns)
                for f in range(len(fac)):
                    for k in range(len(cust)):
                        keep = sum(g[0] < fac[f][0] for g in fac) < nc or sum(r[k] < D0[f][k] for r in D0) < ns
                        expect_eq(int(ind[f, k]), 2 if keep else 0, lambda: 'facility %d for customer %d with the %d cheapest and %d closest' % (f, k, nc, ns))
                        expect(close(mat[f, k], D0[f][k]), lambda: 'distances')
                rec.trans()


# ------------------------------------------------------------------------------------------------ vehicles
def vehicles(rec, c):
    pts, dem, caps, starts, ends = c
    n, nv = len(pts), len(caps)
    m = V.VrpProblem2D(nv, list(caps), n, [V.Customer2D(i, dem[i], *map(float, pts[i])) for i in range(n)], list(starts), list(ends))
    register(m, {'list_paths': [D.TypeAttribute.LIST_INTEGER]}, {'length': -1, 'capacity_violation': -100000}, D.ModeOptim.MAXIMIZATION, D.ObjectiveHandling.SINGLE, V.VrpSolution)
    inner = [i for i in range(n) if i not in starts and i not in ends]

    def want(paths):
        legs, loads = [], []
        for v in range(nv):
            full = [starts[v]] + list(paths[v]) + [ends[v]]
            legs.append([dist(pts[a], pts[b]) for a, b in zip(full[:-1], full[1:])])
            loads.append(sum(dem[i] for i in paths[v]) + dem[starts[v]] + (dem[ends[v]] if ends[v] != starts[v] else 0))
        return legs, loads, sum(map(sum, legs)), sum(max(0, x - y) for x, y in zip(loads, caps))

    for p in itertools.permutations(inner):
        for cuts in itertools.combinations_with_replacement(range(len(inner) + 1), nv - 1):
            b = (0,) + cuts + (len(inner),)
            paths = [list(p[x:y]) for x, y in zip(b[:-1], b[1:])]
            rec.state()
            legs, loads, total, viol = want(paths)
            s = V.VrpSolution(m, list(starts), list(ends), [list(q) for q in paths])
            first = bool(m.satisfy(s)) if len(p) % 2 == 0 else None
            for _ in range(2):
                e = m.evaluate(s)
                expect(set(e) == {'length', 'capacity_violation'} and close(e['length'], total) and close(e['capacity_violation'], viol), lambda: 'evaluation of %r: %r instead of %r' % (paths, e, (total, viol)))
            expect(close(s.length, total) and close_list(list(s.capacities), loads) and len(s.lengths) == nv and all(close_list(list(x), y) for x, y in zip(s.lengths, legs)), lambda: 'lengths and loads of %r: %r %r' % (paths, s.lengths, s.capacities))
            expect(first in (None, viol == 0) and bool(m.satisfy(s)) == (viol == 0), lambda: 'satisfied by %r' % (paths,))
            for cp in (s.copy(), s.lazy_copy()):
                expect(cp.list_paths == paths and cp.problem is m and cp.length == s.length and cp.lengths == s.lengths and cp.capacities == s.capacities and (list(cp.list_start_index), list(cp.list_end_index)) == (list(starts), list(ends)),
                       lambda: 'copy of %r' % (paths,))
            independent(s, 'paths')
            independent(V.VrpSolution(m, list(starts), list(ends), [list(q) for q in paths]), 'paths which are not evaluated')
            cp = s.copy()
            for q in cp.list_paths:
                q.clear()
            for q in cp.lengths:
                q.clear()
            cp.capacities.clear()
            expect(s.list_paths == paths and close_list(list(s.capacities), loads) and all(close_list(list(x), y) for x, y in zip(s.lengths, legs)), lambda: 'changing a copy of %r' % (paths,))
            cp = s.copy()
            m2 = V.VrpProblem2D(nv, [x + 1 for x in caps], n, m.customers, list(starts), list(ends))
            cp.change_problem(m2)
            expect(cp.problem is m2 and s.problem is m and close(m2.evaluate(cp)['capacity_violation'], sum(max(0, x - y - 1) for x, y in zip(loads, caps))), lambda: 'changing the problem')
            rec.trans()
    for i in range(n):
        for j in range(n):
            expect(close(m.evaluate_function_indexes(i, j), dist(pts[i], pts[j])), lambda: 'distance')
    # largest demands first, vehicle after vehicle
    rest, paths = sorted(inner, key=lambda x: -dem[x] * n + x), []
    for v in range(nv):
        left = caps[v] - dem[starts[v]] - (dem[ends[v]] if ends[v] != starts[v] else 0)
        paths.append([])
        for k in list(rest):
            if dem[k] <= left:
                left -= dem[k]
                paths[v].append(k)
                rest.remove(k)
    s = m.get_dummy_solution()
    expect_eq(([list(q) for q in s.list_paths], list(s.list_start_index), list(s.list_end_index)), (paths, list(starts), list(ends)), lambda: 'trivial solution')
    expect(close(m.evaluate(s)['length'], want(paths)[2]) and s.problem is m, lambda: 'length of the trivial solution')
    with contextlib.redirect_stdout(io.StringIO()):
        s = m.get_stupid_solution()
    expect_eq([list(q) for q in s.list_paths], [inner] + [[]] * (nv - 1), lambda: 'stupid solution')
    expect(close(m.evaluate(s)['length'], want(s.list_paths)[2]), lambda: 'length of the stupid solution')
    closest, mat = VT.compute_length_matrix(m)
    expect(all(close(mat[i, j], dist(pts[i], pts[j])) for i in range(n) for j in range(n)), lambda: 'matrix of distances')
    expect(all(sorted(closest[i]) == list(range(n)) and all(mat[i, x] <= mat[i, y] for x, y in zip(closest[i][:-1], closest[i][1:])) for i in range(n)), lambda: 'closest customers')
    adj, mat2 = VT.prune_search_space(m, n)
    expect(np.allclose(adj, mat) and np.allclose(mat2, mat), lambda: 'nothing to prune')
    g, mat3 = VT.build_graph(m)
    expect(np.allclose(mat3, mat) and set(g.nodes()) == set(range(n)), lambda: 'graph of the customers')
    es = {(i, j): dist(pts[i], pts[j]) for i in range(n) for j in range(n) if dist(pts[i], pts[j]) > 0}
    expect({(int(a), int(b)) for a, b in g.edges()} - {(0, 0)} == set(es) and all(close(g[a][b]['weight'], w) for (a, b), w in es.items()), lambda: 'arcs of the graph')


# ------------------------------------------------------------------------------------------------ travelling thief
def thief(rec, c):
    pts, items, cap, vmin, vmax, rent = c
    n = len(pts)
    m = P.TTPModel(numberOfNodes=n, numberOfItems=len(items), capacityOfKnapsack=float(cap), minSpeed=vmin, maxSpeed=vmax, rentingRatio=rent,
                   nodes=[{'index': i, 'x': x, 'y': y} for i, (x, y) in enumerate(pts)], items=[{'index': i, 'profit': p, 'weight': w, 'node_index': k} for i, (p, w, k) in enumerate(items)],
                   nodes_array=np.array([[i, x, y] for i, (x, y) in enumerate(pts)]), items_array=np.array([[i, p, w, k] for i, (p, w, k) in enumerate(items)]))
    o = m.get_objective_register()
    expect_eq(({k: v['default_weight'] for k, v in o.dict_objective_to_doc.items()}, o.objective_sense, m.get_solution_type()), ({'obj': 1}, D.ModeOptim.MAXIMIZATION, P.TTPSolution), lambda: 'register')
    expect(all(close(P.distance(m.nodes[i], m.nodes[j]), dist(pts[i], pts[j])) for i in range(n) for j in range(n)), lambda: 'distances')
    for p in itertools.permutations(range(1, n)):
        tour = (0,) + p + (0,)
        for take in itertools.product((0, 1), repeat=len(items)):
            z = [k if t else -1 for t, (_, _, k) in zip(take, items)]
            w = pr = time = length = 0
            ws = []
            for a, b in zip(tour[:-1], tour[1:]):
                for t, (q, x, k) in zip(take, items):
                    if t and k == a:
                        w += x
                        pr += q
                ws.append(w)
                length += dist(pts[a], pts[b])
                time += dist(pts[a], pts[b]) / (vmax - w * (vmax - vmin) / cap)
            if w > cap:
                continue
            rec.state()
            s = P.TTPSolution(np.array(tour), np.array(z))
            e = m.evaluate(s)
            want = [pr - time * rent, pr, length, time, w, cap - w]
            expect(set(e) == {'obj'} and close(e['obj'], want[0]) and close_list([s.objective, s.profit, s.distance, s.time_trip, s.weight_used, s.weight_end], want),
                   lambda: 'tour %r taking %r: %r %s instead of %r' % (tour, take, e, s, want))
            d = P.TTPSolution(np.array(tour), np.array(z))
            expect(close(m.evaluate_details(d), want[0]) and close_list([d.objective, d.profit, d.distance, d.time_trip, d.weight_used, d.weight_end], want) and list(d.weight_array) == ws, lambda: 'details of %r' % (tour,))
            cp = d.copy()
            cp.tour[0] = 7
            cp.packing[0] = 7
            expect(list(d.tour) == list(tour) and list(d.packing) == z and close_list([cp.objective, cp.profit, cp.distance, cp.time_trip, cp.weight_used, cp.weight_end], want) and list(cp.weight_array) == ws, lambda: 'copy')
            rec.trans()


# ------------------------------------------------------------------------------------------------ files
def parsers(rec, c):
    kind, data, trail = c
    text = '' if kind == 'ttp' else '\n'.join(' '.join(map(str, r)) for r in data) + trail
    f = tempfile.NamedTemporaryFile('w', suffix='.txt', delete=False)
    f.write(text)
    f.close()
    try:
        if kind == 'knapsack':
            for force in (False, True):
                for m in (KP.parse_input_data(text, force), KP.parse_file(f.name, force)):
                    expect_eq((m.nb_items, m.max_capacity, m.force_recompute_values, [tuple(i) for i in m.list_items]), (len(data) - 1, data[0][1], force, [(i,) + r for i, r in enumerate(data[1:])]), lambda: 'knapsack %r' % text)
        elif kind == 'tsp':
            n, pts = TC.parse(text)
            expect_eq((n, [(p.x, p.y) for p in pts]), (len(data) - 1, [tuple(map(float, r)) for r in data[1:]]), lambda: 'points %r' % text)
            for s, e in ((None, None), (0, 1), (1, 0)):
                m = TP.parse_file(f.name, s, e)
                expect_eq((m.node_count, [(p.x, p.y) for p in m.list_points], m.start_index, m.end_index), (n, [tuple(map(float, r)) for r in data[1:]], s or 0, e or 0), lambda: 'tour %r' % text)
        elif kind == 'coloring':
            for m in (CP.parse(text), CP.parse_file(f.name)):
                expect_eq((m.number_of_nodes, [e[:2] for e in m.graph.edges], m.graph.undirected), (data[0][0], [tuple(r) for r in data[1:]], True), lambda: 'graph %r' % text)
        elif kind == 'facility':
            nf = data[0][0]
            for m in (FP.parse(text), FP.parse_file(f.name)):
                expect_eq((m.facility_count, m.customer_count, [(x.index, x.setup_cost, x.capacity, tuple(x.location)) for x in m.facilities], [(x.index, x.demand, tuple(x.location)) for x in m.customers]),
                          (nf, data[0][1], [(i, float(r[0]), r[1], (float(r[2]), float(r[3]))) for i, r in enumerate(data[1:1 + nf])], [(i, r[0], (float(r[1]), float(r[2]))) for i, r in enumerate(data[1 + nf:])]), lambda: 'facilities %r' % text)
        elif kind == 'vrp':
            for s, e, v in ((0, 0, None), (1, 0, None), (0, 1, 3)):
                for m in (VP.parse_input(text, s, e, v), VP.parse_file(f.name, s, e, v)):
                    nv = data[0][1] if v is None else v
                    expect_eq((m.customer_count, m.vehicle_count, m.vehicle_capacities, m.start_indexes, m.end_indexes, [(x.name, x.demand, x.x, x.y) for x in m.customers]),
                              (data[0][0], nv, [data[0][2]] * nv, [s] * nv, [e] * nv, [(i, r[0], float(r[1]), float(r[2])) for i, r in enumerate(data[1:])]), lambda: 'vehicles %r' % text)
        elif kind == 'ttp':
            pts, items, cap = data
            with open(f.name, 'w') as g:
                g.write('PROBLEM NAME: \ttest\nKNAPSACK DATA TYPE: bounded\nDIMENSION:\t%d\nNUMBER OF ITEMS: \t%d\nCAPACITY OF KNAPSACK: %d\nMIN SPEED: 0.1\nMAX SPEED: 1\nRENTING RATIO: 0.72\nEDGE_WEIGHT_TYPE:\tCEIL_2D\nNODE_COORD_SECTION\t(INDEX, X, Y): \n' % (len(pts), len(items), cap))
                g.write(''.join('%d %d %d\n' % (i + 1, x, y) for i, (x, y) in enumerate(pts)))
                g.write('ITEMS SECTION\t(INDEX, PROFIT, WEIGHT, ASSIGNED NODE NUMBER): \n')
                g.write(''.join('%d %d %d %d\n' % (i + 1, p, w, k + 1) for i, (p, w, k) in enumerate(items)))
            m = PP.parse(f.name)
            expect_eq((m.problemName, m.knapsackDataType, m.numberOfNodes, m.numberOfItems, m.capacityOfKnapsack, m.minSpeed, m.maxSpeed, m.rentingRatio, m.edgeWeightType),
                      ('test', 'bounded', len(pts), len(items), float(cap), 0.1, 1., 0.72, 'CEIL_2D'), lambda: 'parameters')
            expect_eq((m.nodes, m.items), ([{'index': i, 'x': x, 'y': y} for i, (x, y) in enumerate(pts)], [{'index': i, 'profit': p, 'weight': w, 'node_index': k} for i, (p, w, k) in enumerate(items)]), lambda: 'nodes and items')
            expect_eq((m.nodes_array.tolist(), m.items_array.tolist()), ([[i, x, y] for i, (x, y) in enumerate(pts)], [[i, p, w, k] for i, (p, w, k) in enumerate(items)]), lambda: 'arrays')
            expect_eq((m.weights.tolist(), m.profits.tolist(), m.av.tolist()), ([i[1] for i in items], [i[0] for i in items], [[float(k == i[2]) for k in range(len(pts))] for i in items]), lambda: 'weights, profits and places')
        rec.state()
        rec.trans()
    finally:
        os.unlink(f.name)


def build(ck):
    ck.rule = 'every assignment, tour, colouring, set of paths and packing of every small instance (including infeasible ones) is evaluated, checked, converted and copied by the real models and compared with the definition; files of every kind are read back'
    ck.scope = 'knapsacks of up to 4 items, tours of up to 6 nodes, all graphs of up to 4 nodes, 3 facilities x 4 customers, 3 vehicles x 4 customers, thieves of 4 nodes and 3 items'
    IT = [((0, 3, 2), (1, 4, 3), (2, 5, 4)), ((2, 3, 2), (0, 4, 3), (1, 5, 3)), ((7, 1.5, 2.5), (3, 2, 0.5), (5, 0, 1)), ((0, 1, 1),), ((0, 2, 1), (1, 2, 1), (2, 3, 2), (3, 1, 5)), ((4, 0, 3), (9, -2, 3), (1, 6, 0), (2, 1, 1))]
    ck.run([(i, cap, fo, mo) for i in IT for cap in range(0, 10) for fo in (False, True) for mo in (False, True)], knapsack, 'knapsacks', chunk=4)
    warm = T.TSPModel2D([T.Point2D(0., 0.), T.Point2D(1., 0.), T.Point2D(1., 1.), T.Point2D(0., 1.)], 4)
    warm.evaluate(warm.get_dummy_solution())
    PT = [((0, 0), (4, 0), (4, 3), (0, 3), (1, 5), (7, 2)), ((0, 0), (1, 4), (2, 1), (3, 5), (5, 0), (2, 1)), ((-1, 2), (0, 0), (2, 0), (3, 0), (4, 1), (0.5, 0.25))]
    ends = lambda n: [(s, e) for s in [None] + list(range(n)) for e in [None] + list(range(n))]
    ck.run([(p[:n], s, e, nb) for p in PT for n in (3, 4, 5) for s, e in ends(n) for nb in (False, True)] + [(p, s, e, nb) for p in PT for s, e in ((0, 0), (0, 5), (2, 1)) for nb in (False, True)], tours, 'tours', chunk=6, timeout=300)
    G5 = [p for p in itertools.product(range(3), repeat=2)]
    ck.run([q for n in (2, 3, 4) for q in itertools.permutations(G5, n) if n < 4 or (q[0] in ((0, 0), (1, 2)) and q[1] < q[3])] + [((0, 0), (1, 1), (0, 0)), ((2, 1), (2, 1), (2, 1), (0, 0))] + ([p for p in itertools.permutations([(0, 0), (4, 1), (1, 3), (2, 2), (5, 5)])]),
           tools, 'tools of tours', chunk=40)
    NA = [tuple(range(9)), ('d', 'a', 'c', 'b'), (5, 3, 9, 1)]
    gr = [(n, e, na, u) for n in (1, 2, 3, 4) for r in range(n * (n - 1) // 2 + 1) for e in itertools.combinations(itertools.combinations(range(n), 2), r) for na in NA for u in (True, False) if u or na is NA[0]]
    gr += [(3, ((1, 0), (2, 1)), NA[1], True), (4, ((3, 0), (2, 1), (0, 2)), NA[2], True), (3, ((1, 0), (0, 1), (2, 1)), NA[0], False)]
    ck.run(gr, colouring, 'colourings', chunk=4)
    FA = [((5, 3, (0, 0)), (2.5, 2, (3, 4)), (1, 9, (6, 0))), ((1, 1, (0, 0)), (1, 2, (1, 1)), (0, 1, (2, 5))), ((0, 4, (1, 1)), (7, 0, (2, 2))), ((3, 5, (0, 0.5)), (4, 2, (9, 1)), (2, 3, (4, 4)), (1, 1, (-3, 2)))]
    CU = [((1, (0, 1)), (2, (3, 3)), (3, (5, 0))), ((2, (1, 0)), (1, (0, 0)), (1, (4, 4)), (4, (2, 2.5))), ((0, (1, 7)), (5, (1, 2)))]
    ck.run([(f, k) for f in FA for k in CU], facilities, 'facilities', chunk=1)
    PV = [((0, 0), (3, 4), (0, 5), (6, 0), (1, 1), (2, 7)), ((1, 1), (1, 1), (4, 0), (0, 2), (5, 5), (3, 3))]
    DV = [(0, 1, 2, 3, 1, 2), (1, 2, 2, 1, 3, 1)]
    ck.run([(p[:n], d[:n], caps, st, en) for p in PV for d in DV for n in (4, 5, 6) for caps in ((4,), (3, 3), (5, 2), (10, 1), (2, 2, 3)) for st, en in (((0,) * len(caps), (0,) * len(caps)), ((0,) * len(caps), (1,) * len(caps)), ((0,) * len(caps), tuple(range(1, 1 + len(caps)))), (tuple(range(len(caps))), tuple(reversed(range(len(caps))))))
            if n < 6 or len(caps) < 3 or THOROUGH], vehicles, 'vehicles', chunk=1, timeout=300)
    wm = ((((0, 0), (3, 4), (3, 0), (6, 8)), ((5, 2, 1), (7, 3, 2), (4, 1, 1)), 10, 0.1, 1., 2.), (((0, 0), (3, 4), (3, 0)), ((5, 4, 1), (7, 6, 2)), 10, 0.5, 2., 0.75), (((2, 1), (0, 4), (5, 5), (1, 1)), ((1, 1, 3), (9, 2, 2), (3, 2, 3), (2, 5, 1)), 6, 0.25, 1.5, 1.))
    ck.run(list(wm), thief, 'thieves', chunk=3, timeout=600)
    PA = []
    for tr in ('', '\n', '\n\n'):
        PA += [('knapsack', ((n, cap),) + tuple((v + 3, 2 * v + 1) for v in range(n)), tr) for n in (1, 2, 4) for cap in (0, 11)]
        PA += [('tsp', ((n,),) + tuple((x, 1.5 * x * x) for x in range(n)), tr) for n in (3, 4)]
        PA += [('coloring', ((n, len(e)),) + e, tr) for n, e in ((2, ((0, 1),)), (4, ((0, 1), (2, 1), (3, 0))), (3, ()), (2, ((0, 1), (1, 0))), (3, ((0, 1), (1, 0), (2, 1), (1, 2), (0, 2))))]
        PA += [('facility', ((len(f), len(k)),) + tuple((s, cap) + p for s, cap, p in f) + tuple((d,) + p for d, p in k), tr) for f in FA for k in CU]
        PA += [('vrp', ((n, v, 7),) + tuple((d, x, 2.5 * x) for x, d in enumerate((0, 3, 1, 2)[:n])), tr) for n in (2, 4) for v in (1, 2)]
    PA += [('ttp', (w[0], w[1], w[2]), '') for w in wm]
    ck.run(PA, parsers, 'files', chunk=20)
    ck.sample({'problem': 'facility', 'assignment': [0, 0, 1]})
