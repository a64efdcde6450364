"""C23: objectives, result storages, Pareto fronts, robust problems and graphs of the optimisation tools."""
import itertools
import math
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
import numpy as np
from skdecide.builders.discrete_optimization.generic_tools import do_problem as D
from skdecide.builders.discrete_optimization.generic_tools.result_storage import result_storage as S
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph

MAX, MIN = D.ModeOptim.MAXIMIZATION, D.ModeOptim.MINIMIZATION


class Sol(D.Solution):
    """a solution; equal to its copies"""
    def __init__(self, key, vals=None, problem=None):
        self.key, self.vals, self.problem = key, vals, problem

    def copy(self):
        return Sol(self.key, self.vals, self.problem)

    def change_problem(self, p):
        self.problem = p

    def __eq__(self, o):
        return isinstance(o, Sol) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return str(self.key)


class Prob(D.Problem):
    def __init__(self, objs, sense=MIN, handling=D.ObjectiveHandling.AGGREGATE, shift=0, feasible=True):
        self.objs, self.sense, self.handling, self.shift, self.feasible, self.calls = objs, sense, handling, shift, feasible, []

    def evaluate(self, s):
        self.calls.append(s)
        return {k: s.vals[k] + self.shift for k in s.vals}

    def satisfy(self, s):
        return self.feasible

    def get_attribute_register(self):
        return D.EncodingRegister({'x': {'name': 'x', 'type': [D.TypeAttribute.PERMUTATION, D.TypeAttribute.LIST_INTEGER]}, 'y': {'name': 'y', 'type': [D.TypeAttribute.LIST_BOOLEAN]}})

    def get_solution_type(self):
        return Sol

    def get_objective_register(self):
        return D.ObjectiveRegister(objective_sense=self.sense, objective_handling=self.handling,
                                   dict_objective_to_doc={k: {'type': D.TypeObjective.OBJECTIVE, 'default_weight': w} for k, w in self.objs})


def vec(t):
    return tuple(float(x) for x in t.vector_fitness)


# ------------------------------------------------------------------------------------------------ vectors
def vectors(rec, c):
    n, mul = c
    allv = list(itertools.product((0, 1, 2), repeat=n))
    for u in allv:
        a = TupleFitness(np.array(u), n)
        for v in allv:
            b = TupleFitness(np.array(v), n)
            rec.state()
            gt = u != v and all(x >= y for x, y in zip(u, v))
            lt = u != v and all(x <= y for x, y in zip(u, v))
            expect_eq((bool(a > b), bool(a < b), bool(a == b), bool(a >= b), bool(a <= b)), (gt, lt, not gt and not lt, not lt, not gt), lambda: 'comparing %r with %r' % (u, v))
            expect(abs(a.distance(b) - math.dist(u, v)) < 1e-9, lambda: 'distance of %r and %r' % (u, v))
        expect_eq((vec(a * mul), (a * mul).size), (tuple(float(mul * x) for x in u), n), lambda: '%r * %r' % (u, mul))
        expect_eq(vec(a), tuple(map(float, u)), lambda: '%r after a product' % (u,))
        rec.trans()


# ------------------------------------------------------------------------------------------------ storages
def check_storage(st, want, mode, best, at, probs):
    f = max if mode is MAX else min
    expect_eq([(s.key, x) for s, x in st.list_solution_fits], want, lambda: at() + ': content')
    if not want:
        expect_eq(st.get_best_solution(), None, lambda: at() + ': best of nothing')
        return
    b = f(x for _, x in want)
    ties = [k for k, x in want if x == b]
    rest = [(k, x) for k, x in want if x != b]
    expect(st.get_best_solution().key in ties, lambda: '%s: get_best_solution gives %r, the best are %r' % (at(), st.get_best_solution(), ties))
    s, x = st.get_best_solution_fit()
    expect((s.key, x) in [(k, b) for k in ties], lambda: '%s: get_best_solution_fit gives %r' % (at(), (s, x)))
    s, x = st.get_last_best_solution()
    expect_eq((s.key, x), (ties[-1], b), lambda: at() + ': get_last_best_solution')
    if best is not None:
        expect_eq(st.best_solution.key, best, lambda: at() + ': best_solution')
    if probs:
        for name, pool in (('get_random_best_solution', [(k, b) for k in ties]), ('get_random_solution', rest or want)):
            got = {}
            for res, _, p in nondet.explore(getattr(st, name)):
                if res[0] == 'exc':
                    raise res[1]
                k = (res[1][0].key, res[1][1])
                got[k] = got.get(k, 0) + p
            ref = {}
            for k in pool:
                ref[k] = ref.get(k, 0) + 1 / len(pool)
            expect_eq({k: round(p, 9) for k, p in got.items()}, {k: round(p, 9) for k, p in ref.items()}, lambda: '%s: %s' % (at(), name))


def storage(rec, c):
    mode, first, fits, maxlen, limit, given = c
    f = max if mode is MAX else min
    better = (lambda a, b: a > b) if mode is MAX else (lambda a, b: a < b)
    init = [(Sol(k), fits[k]) for k in first]
    for seq in itertools.product(sorted(fits), repeat=maxlen):
        kw = {} if limit is None else {'limit_store': True, 'nb_best_store': limit}
        st = S.ResultStorage(list(init), best_solution=Sol('given') if given else None, mode_optim=mode, **kw)
        want = [(k, fits[k]) for k in first]
        best = 'given' if given else None
        if not given and want:
            b = f(x for _, x in want)
            best = [k for k, x in want if x == b][0]
        at = lambda: '%s storage of %r with %r then adding %r' % (mode.name, fits, first, seq)
        check_storage(st, want, mode, best, at, True)
        for i, k in enumerate(seq):
            if not want or better(fits[k], f(x for _, x in want)):
                best = k
            if k not in [x for x, _ in want]:
                want.append((k, fits[k]))
            st.add_solution(Sol(k), fits[k])
            rec.trans()
            if i == len(seq) - 1 or fits[k] == max(fits.values()):
                check_storage(st, want, mode, best, lambda: '%s (after %d)' % (at(), i + 1), i == len(seq) - 1)
        st.finalize()
        check_storage(st, want, mode, best, lambda: at() + ', finalized', False)
        rec.state()


def dominated(v, others, mode):
    sg = 1 if mode is MAX else -1
    return any(o != v and all(sg * a >= sg * b for a, b in zip(o, v)) for o in others)


def pareto(rec, c):
    mode, n, k, first = c
    vals = list(itertools.product((0, 1, 2), repeat=2)) if n == 2 else [v for v in itertools.product((0, 1, 2), repeat=3) if sum(v) in (2, 3)][:8]
    prob = Prob([('a', 1), ('b', 1), ('c', 1)][:n])
    for seq in itertools.product(vals, repeat=k):
        seq = (first,) + seq
        sols = [Sol(i, dict(zip('abc', v))) for i, v in enumerate(seq)]
        fit = lambda v: TupleFitness(np.array(v), n)
        at = lambda: '%s front of %r' % (mode.name, seq)
        want = [i for i, v in enumerate(seq) if not dominated(v, seq, mode)]

        def ok(pf, what):
            expect_eq([(s.key, vec(t)) for s, t in pf.paretos], [(i, tuple(map(float, seq[i]))) for i in want], lambda: '%s, %s' % (at(), what))
            expect_eq(pf.len_pareto_front(), len(want), lambda: '%s, %s: length' % (at(), what))
            sg = 1 if mode is MAX else -1
            ext = pf.compute_extreme_points()
            expect_eq(len(ext), n, lambda: '%s, %s: number of extreme points' % (at(), what))
            for j, (s, t) in enumerate(ext):
                expect(s.key in want and sg * seq[s.key][j] == max(sg * v[j] for v in seq), lambda: '%s, %s: extreme point %d is %r' % (at(), what, j, seq[s.key]))
        pf = S.ParetoFront([(s, fit(v)) for s, v in zip(sols, seq)], best_solution=None, mode_optim=mode)
        pf.finalize()
        ok(pf, 'built at once')
        pf = S.ParetoFront([(sols[0], fit(seq[0]))], best_solution=None, mode_optim=mode)
        for s, v in zip(sols[1:], seq[1:]):
            pf.add_solution(s, fit(v))
        pf.finalize()
        ok(pf, 'by adding solutions')
        pf = S.ParetoFront([(sols[0], fit(seq[0]))], best_solution=None, mode_optim=mode)
        pf.finalize()
        for i, (s, v) in enumerate(zip(sols[1:], seq[1:])):
            pf.add_point(s, fit(v))
            now = [j for j, w in enumerate(seq[:i + 2]) if not dominated(w, seq[:i + 2], mode)]
            expect_eq([s.key for s, _ in pf.paretos], now, lambda: '%s, by adding points (%d)' % (at(), i + 2))
            rec.trans()
        rs = S.ResultStorage([(s, fit(v)) for s, v in zip(sols, seq)], mode_optim=mode)
        ok(S.result_storage_to_pareto_front(rs), 'of a storage')
        expect(not dominated(seq[rs.get_best_solution().key], seq, mode), lambda: '%s: best solution is dominated' % at())
        rs = S.ResultStorage([(s, float(v[0])) for s, v in zip(sols, seq)], mode_optim=mode)
        ok(S.result_storage_to_pareto_front(rs, prob), 'of a storage, evaluated again')
        expect_eq([(s.key, x) for s, x in rs.list_solution_fits], [(i, float(v[0])) for i, v in enumerate(seq)], lambda: at() + ': the storage changed')
        rec.state()


def long_fronts(rec, c):
    """fronts of many points, met in every rotation, both ways, dominated points before or after"""
    mode, n, neg, place = c
    sg = 1 if mode is MAX else -1
    chain = [(i - neg, n - i - neg) for i in range(n)]
    inner = [(a - sg, b - sg) for a, b in chain]
    for shift in range(n):
        for way in (1, -1):
            pts = (chain[shift:] + chain[:shift])[::way]
            low = (inner[shift:] + inner[:shift])[::way]
            seq = {'none': pts, 'before': low + pts, 'after': pts + low, 'mixed': [x for p in zip(low, pts) for x in p]}[place]
            want = [i for i, v in enumerate(seq) if not dominated(v, seq, mode)]
            fits = [(Sol(i, dict(zip('ab', v))), TupleFitness(np.array(v), 2)) for i, v in enumerate(seq)]
            at = lambda: '%s front of %r' % (mode.name, seq)
            pf = S.ParetoFront(fits[:1], best_solution=None, mode_optim=mode)
            for s, t in fits[1:]:
                pf.add_solution(s, t)
            pf.finalize()
            pg = S.result_storage_to_pareto_front(S.ResultStorage(list(fits), mode_optim=mode, nb_best_store=3))
            ph = S.result_storage_to_pareto_front(S.ResultStorage([(s, float(v[0])) for (s, _), v in zip(fits, seq)], mode_optim=mode), Prob([('a', 1), ('b', 1)]))
            for x in (pf, pg, ph):
                expect_eq([(s.key, vec(t)) for s, t in x.paretos], [(i, tuple(map(float, seq[i]))) for i in want], at)
                expect_eq(x.len_pareto_front(), len(want), at)
            rec.state()
            rec.trans(len(seq))


def duplicates(rec, c):
    vals = c
    fits = [((Sol(i, v)), i % 2) for i, v in enumerate(vals)]
    st = S.ResultStorage(list(fits))
    st.remove_duplicate_solutions('vals')
    want = [i for i, v in enumerate(vals) if v not in vals[:i]]
    expect_eq([(s.key, x) for s, x in st.list_solution_fits], [(i, i % 2) for i in want], lambda: 'without duplicates of %r' % (vals,))
    rec.state()


# ------------------------------------------------------------------------------------------------ objectives
def objectives(rec, c):
    names, weights, handling, sense, psense, default = c
    reg = [(k, w) for k, w in zip(names, weights)]
    prob = Prob(reg, sense, handling)
    at = lambda: 'objectives %r with weights %r, %s' % (names, weights, handling.name)
    if default:
        setup = D.get_default_objective_setup(prob)
        expect_eq((list(setup.objectives), list(setup.weights), setup.sense_function, setup.objective_handling), (list(names), list(weights), sense, handling), lambda: at() + ': default setup')
        expect_eq(tuple(map(list, prob.get_objective_register().get_list_objective_and_default_weight())), (list(names), list(weights)), lambda: at() + ': register')
    par = None if default else D.ParamsObjectiveFunction(handling, list(names), list(weights), psense)
    f1, f2 = D.build_evaluate_function_aggregated(prob, par)
    g1, g2, back = D.build_aggreg_function_and_params_objective(prob, par)
    expect_eq((list(back.objectives), list(back.weights), back.sense_function, back.objective_handling), (list(names), list(weights), sense if default else psense, handling), lambda: at() + ': parameters')
    if par is not None:
        expect(back is par, lambda: at() + ': the given parameters are not those returned')
    for v in itertools.product((0, 1, 5), repeat=3):
        vals = dict(zip('abc', v))
        s = Sol('s', vals)
        w = [x * vals[k] for k, x in zip(names, weights)]
        want = {D.ObjectiveHandling.AGGREGATE: float(sum(w)), D.ObjectiveHandling.SINGLE: float(w[0]), D.ObjectiveHandling.MULTI_OBJ: tuple(map(float, w))}[handling]
        for f, x in ((f1, s), (f2, dict(vals)), (g1, s), (g2, dict(vals))):
            got = f(x)
            expect_eq(vec(got) if isinstance(got, TupleFitness) else float(got), want, lambda: '%s on %r' % (at(), v))
            rec.trans()
        o = sorted(names)
        expect_eq((vec(prob.evaluate_mobj(s)), vec(prob.evaluate_mobj_from_dict(vals)), prob.evaluate_mobj(s).size), ((tuple(float(vals[k]) for k in o),) * 2 + (len(o),)), lambda: '%s: vector of %r' % (at(), v))
    rec.state()


def quantile(vals, q):
    vals = sorted(vals)
    x = (len(vals) - 1) * q / 100
    i = int(math.floor(x))
    return vals[i] + (x - i) * (vals[min(i + 1, len(vals) - 1)] - vals[i])


def robust(rec, c):
    k, method, arg = c
    B = D.BaseMethodAggregating
    for shifts in itertools.product((0, 1, 5), repeat=k):
        probs = [Prob([('a', 1), ('b', 2)], shift=s, feasible=i == 0) for i, s in enumerate(shifts)]
        if method is B.PONDERATION:
            m = D.MethodAggregating(method, ponderation=np.array(arg[:k]))
        elif method is B.PERCENTILE and arg is not None:
            m = D.MethodAggregating(method, percentile=arg)
        else:
            m = D.MethodAggregating(method)
        rp = D.RobustProblem(probs, m)
        for v in ((0, 0), (2, 7), (0.5, -1.25)):
            s = Sol('s', dict(zip('ab', v)))
            got = rp.evaluate(s)
            ref = {}
            for name, x in s.vals.items():
                vals = [x + sh for sh in shifts]
                ref[name] = {B.MEAN: sum(vals) / k, B.MEDIAN: quantile(vals, 50), B.MIN: min(vals), B.MAX: max(vals), B.PERCENTILE: quantile(vals, 90. if arg is None else arg if not isinstance(arg, tuple) else 0),
                             B.PONDERATION: sum(a * b for a, b in zip(vals, arg[:k])) if isinstance(arg, tuple) else 0}[method]
            expect_eq({n: round(float(x), 9) for n, x in got.items()}, {n: round(float(x), 9) for n, x in ref.items()}, lambda: '%s (%r) of values shifted by %r' % (method.name, arg, shifts))
            rec.trans()
        expect_eq((rp.satisfy(s), rp.get_solution_type(), rp.get_attribute_register().dict_attribute_to_type, rp.get_objective_register().dict_objective_to_doc, rp.nb_problem),
                  (True, Sol, probs[0].get_attribute_register().dict_attribute_to_type, probs[0].get_objective_register().dict_objective_to_doc, k), 'robust problem: description of the first problem')
        rec.state()


def types(rec, c):
    reg = D.EncodingRegister({str(i): {'name': str(i), 'type': list(t)} for i, t in enumerate(c)})
    expect_eq(reg.get_types(), [t for ts in c for t in ts], 'types of %r' % (c,))
    rec.state()


# ------------------------------------------------------------------------------------------------ comparing storages
def comparator(rec, c):
    mode, n1, first = c
    vals = list(itertools.product((0, 1, 2), repeat=2))
    for seq in itertools.product(vals, repeat=2):
        seq = (first,) + seq
        sols = [Sol(i, dict(zip('ab', v))) for i, v in enumerate(seq)]
        fits = [(s, TupleFitness(np.array(v), 2)) for s, v in zip(sols, seq)]
        sts = [S.ResultStorage(fits[:n1], mode_optim=mode), S.ResultStorage(fits[n1:], mode_optim=mode)]
        at = lambda: 'comparing the %s storages %r and %r' % (mode.name, seq[:n1], seq[n1:])
        cmp = ResultComparator(sts, ['one', 'two'], ['a', 'b'], [1, 1])
        for j, o in enumerate('ab'):
            got = cmp.get_best_by_objective_by_result_storage(o)
            expect_eq(sorted(got), ['one', 'two'], lambda: at() + ': names')
            f = max if mode is MAX else min
            for name, part in (('one', seq[:n1]), ('two', seq[n1:])):
                s, t = got[name]
                expect_eq((vec(t), vec(t)[j]), (tuple(map(float, seq[s.key])), float(f(v[j] for v in part))), lambda: '%s: best of %s for objective %s' % (at(), name, o))
                expect(seq[s.key] in part, lambda: '%s: best of %s is of the other storage' % (at(), name))
        sp = cmp.generate_super_pareto()
        expect_eq([(s.key, vec(t)) for s, t in sp.paretos], [(i, tuple(map(float, v))) for i, v in enumerate(seq) if not dominated(v, seq, mode)], lambda: at() + ': common front')
        rec.trans()
        # (the fitness of one number says which solution is evaluated again)
        one = [S.ResultStorage([(s, float(s.vals['a'])) for s in p], mode_optim=mode) for p in (sols[:n1], sols[n1:])]
        tests = [Prob([('a', 1)], shift=10), Prob([('a', 1)], shift=20)]
        cmp = ResultComparator(one, ['one', 'two'], ['a', 'b'], [1, 1], test_problems=tests)
        f = max if mode is MAX else min
        for i, part in enumerate((seq[:n1], seq[n1:])):
            pool = [v for v in part if v[0] == f(w[0] for w in part)]
            got = cmp.reevaluated_results[i]
            expect_eq(sorted(got), ['a', 'b'], lambda: at() + ': objectives evaluated again')
            expect((got['a'], got['b']) in [([v[0] + 10, v[0] + 20], [v[1] + 10, v[1] + 20]) for v in pool], lambda: '%s: evaluated again as %r' % (at(), got))
        rec.state()


# ------------------------------------------------------------------------------------------------ graphs
def graph(rec, c):
    n, edges, und = c
    nodes = [(i, {'name': 'n%d' % i, 'w': i}) for i in range(n)]
    es = [(a, b, {'k': 10 * a + b}) for a, b in edges]
    g = Graph(nodes, es, undirected=und) if not und or len(edges) % 2 else Graph(nodes, es)
    at = lambda: '%s graph of %d nodes with edges %r' % ('undirected' if und else 'directed', n, edges)
    arcs = {(a, b): 10 * a + b for a, b in edges}
    if und:
        for a, b in edges:
            arcs[(b, a)] = arcs[(a, b)]
    expect_eq(list(g.get_nodes()), list(range(n)), lambda: at() + ': nodes')
    expect_eq(sorted(g.get_edges()), sorted(arcs), lambda: at() + ': edges')
    reach = {a: {b for x, b in arcs if x == a} for a in range(n)}
    clos = {}
    for a in range(n):
        seen, todo = set(), [a]
        while todo:
            for b in reach[todo.pop()]:
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        clos[a] = seen
    for a in range(n):
        expect_eq(set(g.get_neighbors(a)), reach[a], lambda: '%s: neighbours of %d' % (at(), a))
        expect_eq(set(g.get_predecessors(a)), {x for x, b in arcs if b == a}, lambda: '%s: predecessors of %d' % (at(), a))
        expect_eq(set(g.precedessors_nodes(a)), {x for x in range(n) if a in clos[x] and x != a}, lambda: '%s: ancestors of %d' % (at(), a))
        expect_eq((g.get_attr_node(a, 'name'), g.get_attr_node(a, 'w'), g.get_attr_node(a, 'other')), ('n%d' % a, a, None), lambda: '%s: attributes of %d' % (at(), a))
        for b in range(n):
            expect_eq((g.get_attr_edge(a, b, 'k'), g.get_attr_edge(a, b, 'other')), (arcs.get((a, b)), None), lambda: '%s: attribute of (%d, %d)' % (at(), a, b))
            rec.trans()
    expect_eq(g.get_attr_node(n + 1, 'name'), None, lambda: at() + ': attribute of no node')
    loop = g.check_loop()
    if und:
        loops = len(edges) >= n or _cyclic(n, edges)
    else:
        loops = any(a in clos[a] for a in range(n))
    expect_eq(bool(loop), loops, lambda: at() + ': check_loop')
    if loop:
        path = [(e[0], e[1]) for e in loop]
        expect(all(p in arcs for p in path) and (und or all(x[1] == y[0] for x, y in zip(path, path[1:] + path[:1]))), lambda: '%s: %r is no loop' % (at(), path))
    x = g.to_networkx()
    expect_eq((sorted(x.nodes), x.is_directed(), {n: dict(d) for n, d in x.nodes.items()}), (list(range(n)), not und, {i: {'name': 'n%d' % i, 'w': i} for i in range(n)}), lambda: at() + ': networkx nodes')
    expect_eq({(a, b): d['k'] for a, b, d in x.edges(data=True)} if not und else {k: v for a, b, d in x.edges(data=True) for k, v in (((a, b), d['k']), ((b, a), d['k']))}, arcs, lambda: at() + ': networkx edges')
    rec.state()


def _cyclic(n, edges):
    comp = list(range(n))
    for a, b in edges:
        if a == b or comp[a] == comp[b]:
            return True
        comp = [comp[a] if x == comp[b] else x for x in comp]
    return False


def build(ck):
    ck.rule = ('storages: every sequence of solutions added (in both senses, from every initial content) gives the best, last best and random best (all outcomes of the draw with their probability) of the definition; '
               'fronts: exactly the solutions no other dominates; aggregated, vector and robust evaluations equal their definition on all small values; graphs: all small graphs against their arcs')
    ck.scope = 'sequences of up to 6 solutions; vectors of 1-3 objectives over 3 values; 1-4 scenarios; graphs of up to 4 nodes (3 with loops)'
    ck.run([(n, m) for n in (1, 2, 3) for m in (-1, 0, 2)], vectors, 'vectors', chunk=1)
    F = [{'a': 1, 'b': 2, 'c': 2, 'd': 3}, {'a': 2, 'b': 2, 'c': 1, 'd': 1}, {'a': 0., 'b': -1., 'c': -1.5, 'd': -1.}]
    k = 4 if THOROUGH else 3
    ck.run([(m, i, f, k, lim, g) for m in (MAX, MIN) for i in [()] + [x for r in (1, 2) for x in itertools.permutations('abd', r)] + [('a', 'b', 'a'), ('c', 'b', 'c', 'd')] for f in F for lim in (None, 1, 2) for g in (False, True)
            if not (g and not i)], storage, 'result storages', chunk=2)
    V2 = list(itertools.product((0, 1, 2), repeat=2))
    ck.run([(m, 2, 3, v) for m in (MAX, MIN) for v in V2] + [(m, 3, 2, v) for m in (MAX, MIN) for v in itertools.product((0, 1, 2), repeat=3)] + ([(m, 2, 4, v) for m in (MAX, MIN) for v in V2] if THOROUGH else []),
           pareto, 'Pareto fronts', chunk=1, timeout=600)
    ck.run([v for n in range(5) for v in itertools.product([(0, 1), (1, 0), (1, 1)], repeat=n)] + [v for n in (2, 3) for v in itertools.product([(0, 1, 2, 3, 4), (0, 1, 2, 3, 5), (0, 1, 2, 4, 4), (1, 1, 2, 3, 4)], repeat=n)], duplicates, 'duplicates', chunk=20)
    ck.run([(m, n, g, p) for m in (MAX, MIN) for n in (5, 12, 25) for g in (0, 7) for p in ('none', 'before', 'after', 'mixed')], long_fronts, 'long fronts', chunk=1)
    H = D.ObjectiveHandling
    W = (-1, 0, 2.5)
    ck.run([(ns, ws, h, s, ps, d) for ns in [('a',), ('a', 'b'), ('b', 'a'), ('c', 'a', 'b')] for ws in itertools.product(W, repeat=len(ns)) for h in H for s in (MAX, MIN) for d in (True, False)
            for ps in ((MAX, MIN) if not d else (MAX,))], objectives, 'objectives', chunk=10)
    B = D.BaseMethodAggregating
    ck.run([(k, m, a) for k in (1, 2, 3, 4) for m in B for a in {B.PERCENTILE: (None, 0, 10, 50, 75, 100), B.PONDERATION: ((0.5, 0.25, 0.25, 1), (1, 2, 0, -1))}.get(m, (None,))], robust, 'robust problems', chunk=2)
    T = list(D.TypeAttribute)
    ck.run([c for n in range(3) for c in itertools.product([(), (T[0],), (T[2], T[1]), (T[2],)], repeat=n)], types, 'registers', chunk=20)
    ck.run([(m, n1, v) for m in (MAX, MIN) for n1 in (1, 2) for v in V2], comparator, 'comparing storages', chunk=1)
    pairs3 = [(a, b) for a in range(3) for b in range(3)]
    gs = [(3, e, und) for r in range(6) for e in itertools.combinations(pairs3, r) for und in (True, False) if not und or not any((b, a) in e and a != b for a, b in e)]
    pairs4 = [(a, b) for a in range(4) for b in range(4) if a != b]
    gs += [(4, e, und) for r in range(6 if THOROUGH else 5) for e in itertools.combinations(pairs4, r) for und in (True, False) if not und or not any((b, a) in e for a, b in e)]
    ck.run(gs, graph, 'graphs', chunk=50)
    ck.sample({'mode': 'MAXIMIZATION', 'initial': [], 'added': ['a', 'b']})
