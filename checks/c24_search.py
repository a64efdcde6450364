"""C24: mutations, their moves, and the local searches built on them."""
import itertools
import math
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
import numpy as np
from checks import nogurobi
from checks import rcpspref as P
from checks.c20_rcpsp import build_model
from skdecide.builders.discrete_optimization.generic_tools import do_problem as D
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import LocalMove, LocalMoveDefault, Mutation
from skdecide.builders.discrete_optimization.generic_tools.mutations import permutation_mutations as PM
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation, BasicPortfolioMutationTrack
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_catalog import get_available_mutations
from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import HillClimber, HillClimberPareto
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import SimulatedAnnealing, TemperatureSchedulingFactor
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import ModeMutation, RestartHandler, RestartHandlerLimit
from skdecide.builders.discrete_optimization.rcpsp.mutations.mutation_rcpsp import PermutationMutationRCPSP
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as M
from skdecide.builders.discrete_optimization.tsp import tsp_model as T
from skdecide.builders.discrete_optimization.tsp.mutation import mutation_tsp as MT
from skdecide.builders.discrete_optimization.knapsack import knapsack_model as K
from skdecide.builders.discrete_optimization.knapsack.mutation import mutation_knapsack as MK

MAX, MIN = D.ModeOptim.MAXIMIZATION, D.ModeOptim.MINIMIZATION
TA = D.TypeAttribute


# ------------------------------------------------------------------------------------------------ a problem with every kind of attribute
class Sol(D.Solution):
    def __init__(self, p, q=(), b=(), z=()):
        self.p, self.q, self.b, self.z = list(p), list(q), list(b), list(z)

    def copy(self):
        return Sol(self.p, self.q, self.b, self.z)

    def lazy_copy(self):
        s = Sol((), (), (), ())
        s.p, s.q, s.b, s.z = self.p, self.q, self.b, self.z
        return s

    def key(self):
        return tuple(int(x) for x in self.p), tuple(int(x) for x in self.q), tuple(int(x) for x in self.b), tuple(int(x) for x in self.z)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return repr(self.key())


def cost_of(key):
    return sum((i + 1) * x * x + 7 * i * x for part in key for i, x in enumerate(part)) + 100 * sum(key[2])


class Prob(D.Problem):
    def __init__(self, n=3, m=2, ar=(2, 3)):
        self.n, self.m, self.ar = n, m, ar

    def evaluate(self, s):
        return {'cost': cost_of(s.key())}

    def get_attribute_register(self):
        return D.EncodingRegister({'p': {'name': 'p', 'type': [TA.PERMUTATION], 'range': range(self.n), 'n': self.n}, 'q': {'name': 'q', 'type': [TA.PERMUTATION], 'range': range(self.m), 'n': self.m},
                                   'b': {'name': 'b', 'type': [TA.LIST_BOOLEAN], 'n': self.m}, 'zz': {'name': 'z', 'type': [TA.LIST_INTEGER_SPECIFIC_ARRITY], 'n': len(self.ar), 'arrities': list(self.ar)}})

    def get_objective_register(self):
        return D.ObjectiveRegister(MIN, D.ObjectiveHandling.SINGLE, {'cost': {'type': D.TypeObjective.OBJECTIVE, 'default_weight': 1}})


def distribution(fn, floats=(0.0, 0.5, 0.999999)):
    """every outcome of fn with its probability, and the results"""
    out = {}
    for res, ch, p in nondet.explore(fn, floats=floats):
        if res[0] == 'exc':
            raise res[1]
        if res[0] != 'ok':
            continue
        out[res[1]] = out.get(res[1], 0) + p
    return out


def run_mutation(build, make, key, at, how, true_obj, obj_key):
    """one mutation of a fresh solution; checks the contract of moves and returns the key of what was obtained"""
    s = make()
    k0 = key(s)
    mut = build(s)
    if how == 'mutate':
        nv, move = mut.mutate(s)
    else:
        nv, move, obj = mut.mutate_and_compute_obj(s)
        want = true_obj(key(nv))
        expect_eq({k: round(float(v), 9) for k, v in obj.items() if k in want}, {k: round(float(v), 9) for k, v in want.items()}, lambda: '%s: objective returned for %r' % (at(), key(nv)))
    k1 = key(nv)
    kept = nv.copy()
    expect_eq(key(kept), k1, lambda: at() + ': copy of the mutated solution')
    back = move.backtrack_local_move(nv)
    expect_eq(key(back), k0, lambda: '%s: mutated into %r then undone' % (at(), k1))
    if obj_key is not None:
        expect_eq(obj_key(back), true_obj(k0), lambda: '%s: evaluated after undoing %r' % (at(), k1))
    expect_eq(key(kept), k1, lambda: '%s: a copy of the mutated solution changed when undone' % at())
    again = move.apply_local_move(back)
    expect_eq(key(again), k1, lambda: '%s: move applied again' % at())
    if obj_key is not None:
        expect_eq(obj_key(again), true_obj(k1), lambda: '%s: evaluated after applying the move again' % at())
    return k1


def rounded(d):
    return {k: round(v, 9) for k, v in d.items() if v > 1e-12}


def add(d, k, p):
    d[k] = d.get(k, 0) + p


def permutations(rec, c):
    kind, n, arg, attr, how, direct = c
    prob = Prob(n if attr != 'q' else 2, n if attr == 'q' else 2)
    for perm in itertools.permutations(range(n)):
        other = (1, 0)
        make = lambda: Sol(perm if attr != 'q' else other, other if attr != 'q' else perm, (0, 1), (1, 1))
        full = lambda x: ((tuple(x), other) if attr != 'q' else (other, tuple(x))) + ((0, 1), (1, 1))
        kw = {} if attr is None else {'attribute': attr}
        ref = {}
        if kind == 'shuffle':
            cls = PM.PermutationShuffleMutation
            for x in itertools.permutations(perm):
                add(ref, full(x), 1 / math.factorial(n))
        elif kind == 'partial':
            cls = PM.PermutationPartialShuffleMutation
            if arg is not None:
                kw['proportion'] = arg
            m = int((0.3 if arg is None else arg) * n)
            subs = list(itertools.combinations(range(n), m))
            for idx in subs:
                for o in itertools.permutations(idx):
                    x = list(perm)
                    for a, b in zip(idx, o):
                        x[a] = perm[b]
                    add(ref, full(x), 1 / len(subs) / math.factorial(m))
        elif kind == 'swap':
            cls = PM.PermutationSwap
            if arg is not None:
                kw['nb_swap'] = arg
            pairs = list(itertools.product(range(n), repeat=2))
            for ps in itertools.product(pairs, repeat=arg or 1):
                x = list(perm)
                for a, b in ps:
                    x[a], x[b] = x[b], x[a]
                add(ref, full(x), 1 / len(pairs) ** (arg or 1))
        else:
            cls = PM.TwoOptMutation
            for i in range(n - 1):
                for j in range(i + 1, n):
                    add(ref, full(perm[:i] + perm[i:j + 1][::-1] + perm[j + 1:]), 1 / (n - 1) / (n - 1 - i))
        build = (lambda s: cls(prob, s, **kw)) if direct else (lambda s: cls.build(prob, s, **kw))
        at = lambda: '%s%s of %r' % (cls.__name__, kw, perm)
        d = distribution(lambda: run_mutation(build, make, Sol.key, at, how, lambda k: {'cost': cost_of(k)}, lambda s: prob.evaluate(s)))
        expect_eq(rounded(d), rounded(ref), lambda: '%s (%s): results and their probabilities' % (at(), how))
        rec.state()
        rec.trans(len(d))
        rec.trace(len(d))


def moves(rec, c):
    """moves made of several swaps or reversed segments: applied in order, undone in the opposite order"""
    kind, n, attr = c
    prob = Prob(n, n)
    pairs = list(itertools.product(range(n), repeat=2)) if kind == 'swap' else [(i, j) for i in range(n) for j in range(i, n)]
    for perm in itertools.permutations(range(n)):
        for k in (0, 1, 2, 3):
            if k == 3 and n > 3:
                continue
            for ps in itertools.product(pairs, repeat=k):
                x = list(perm)
                for a, b in ps:
                    if kind == 'swap':
                        x[a], x[b] = x[b], x[a]
                    else:
                        x = x[:a] + x[a:b + 1][::-1] + x[b + 1:]
                s = Sol(perm, perm, (0, 1), (1, 1))
                mv = PM.SwapsLocalMove(attr, list(ps)) if kind == 'swap' else PM.TwoOptMove(attr, list(ps))
                i = 'pq'.index(attr)
                for turn in range(2):
                    nv = mv.apply_local_move(s)
                    expect_eq((nv.key()[i], nv.key()[1 - i]), (tuple(x), perm), lambda: '%s of %r by %r' % (kind, perm, ps))
                    s = mv.backtrack_local_move(nv)
                    expect_eq(s.key()[:2], (perm, perm), lambda: '%s of %r by %r, undone' % (kind, perm, ps))
                rec.trans()
        rec.state()


def flips(rec, c):
    kind, how, prob_flip, direct, default = c
    floats = (0.05, 0.2, 0.8)
    ar = (2, 3, 1)
    prob = Prob(2, 3, ar)
    kw = {} if prob_flip is None else {'probability_flip': prob_flip}
    p = 0.1 if prob_flip is None else prob_flip
    if not default:
        kw['attribute'] = 'b' if kind == 'bit' else 'z'
        if kind != 'bit':
            kw['arrities'] = list(ar)
    for start in itertools.product(*[(0, 1)] * 3 if kind == 'bit' else [range(1, a + 1) for a in ar]):
        make = lambda: Sol((0, 1), (0, 1, 2), start if kind == 'bit' else (0, 1, 0), (1, 1, 1) if kind == 'bit' else start)
        cls = MutationBitFlip if kind == 'bit' else MutationIntegerSpecificArrity
        build = (lambda s: cls(prob, **kw)) if direct else (lambda s: cls.build(prob, s, **kw))
        at = lambda: '%s%s of %r' % (cls.__name__, kw, start)
        ref = {}
        for rs in itertools.product(floats, repeat=3):
            opts = [([1 - x] if kind == 'bit' else list(range(1, a + 1))) if r <= p else [x] for r, x, a in zip(rs, start, ar)]
            allo = list(itertools.product(*opts))
            for o in allo:
                add(ref, ((0, 1), (0, 1, 2), o if kind == 'bit' else (0, 1, 0), (1, 1, 1) if kind == 'bit' else o), 1 / len(allo))
        n = len(floats) ** 3
        ref = {k: v / n for k, v in ref.items()}
        d = distribution(lambda: run_mutation(build, make, Sol.key, at, how, lambda k: {'cost': cost_of(k)}, lambda s: prob.evaluate(s)), floats=floats)
        expect_eq(rounded(d), rounded(ref), lambda: '%s (%s): results and their probabilities' % (at(), how))
        rec.state()
        rec.trans(len(d))


class Mark(Mutation):
    def __init__(self, i):
        self.i = i

    def mutate(self, s):
        n = s.copy()
        n.p = [self.i]
        return n, LocalMoveDefault(s, n)

    def mutate_and_compute_obj(self, s):
        n, m = self.mutate(s)
        return n, m, {'cost': cost_of(n.key())}


def portfolio(rec, c):
    cls, weights, how, arr = c
    w = np.array(weights, float) if arr else list(weights)
    make = lambda: Sol((9,))
    at = lambda: '%s with weights %r' % (cls.__name__, weights)
    d = distribution(lambda: run_mutation(lambda s: cls([Mark(i) for i in range(len(weights))], w), make, Sol.key, at, how, lambda k: {'cost': cost_of(k)}, None))
    expect_eq(rounded(d), rounded({((i,), (), (), ()): x / sum(weights) for i, x in enumerate(weights)}), lambda: '%s (%s)' % (at(), how))
    expect_eq([float(x) for x in w], [float(x) for x in weights], lambda: at() + ': the weights given were modified')
    rec.state()


# ------------------------------------------------------------------------------------------------ scheduling
def rcpsp(rec, c):
    edges, durs, needs, res, nr, more, perm, modes, which, how = c
    inst = P.instance(edges, durs, needs, res, nr, more)
    model = build_model(inst, 30)
    n = model.n_jobs

    def key(s):
        return tuple(int(x) for x in s.rcpsp_permutation), tuple(int(x) for x in s.rcpsp_modes)

    def true(k):
        s = M.RCPSPSolution(problem=model, rcpsp_permutation=list(k[0]), rcpsp_modes=list(k[1]))
        return {'makespan': model.evaluate(s)['makespan'], 'dates': tuple(sorted((t, v['start_time']) for t, v in s.rcpsp_schedule.items()))}

    def got(s):
        return {'makespan': model.evaluate(s)['makespan'], 'dates': tuple(sorted((t, v['start_time']) for t, v in s.rcpsp_schedule.items()))}

    def make():
        s = M.RCPSPSolution(problem=model, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
        if which[2]:
            model.evaluate(s)
        return s
    cls, kw, _ = which
    at = lambda: '%s%s of %r in %r' % (cls.__name__, {k: getattr(v, '__name__', v) for k, v in kw.items()}, (perm, modes), c[:6])

    def build(s):
        return cls.build(model, s, **kw)

    def wrapped():
        s0 = make()
        k = run_mutation(build, make, key, at, how, lambda k: {'makespan': true(k)['makespan']} if how != 'mutate' else true(k), None)
        # the same, and what the model says of the results
        return k
    seen = {}

    def full():
        s = make()
        k0 = key(s)
        mut = build(s)
        if how == 'mutate':
            nv, move = mut.mutate(s)
        else:
            nv, move, obj = mut.mutate_and_compute_obj(s)
            expect_eq(obj['makespan'], true(key(nv))['makespan'], lambda: '%s: makespan returned for %r' % (at(), key(nv)))
        k1 = key(nv)
        ev = got(nv)
        expect_eq(ev, true(k1), lambda: '%s: evaluation of %r' % (at(), k1))
        kept = nv.copy()
        back = move.backtrack_local_move(nv)
        expect_eq((key(back), got(back)), (k0, true(k0)), lambda: '%s: mutated into %r then undone' % (at(), k1))
        expect_eq((key(kept), got(kept)), (k1, true(k1)), lambda: '%s: copy kept of %r' % (at(), k1))
        expect_eq(sorted(k1[0]), list(range(n)), lambda: '%s: %r is no permutation' % (at(), k1))
        expect(all(1 <= m <= len(inst['modes'][t]) for m, t in zip(k1[1], inst['tasks'][1:-1])), lambda: '%s: modes of %r' % (at(), k1))
        return k1
    d = distribution(full, floats=(0.05, 0.5))
    other = kw.get('other_mutation', cls)
    if other is PM.PermutationShuffleMutation:
        want = {(p, modes) for p in itertools.permutations(perm)}
    elif other is PM.TwoOptMutation:
        want = {(perm[:i] + perm[i:j + 1][::-1] + perm[j + 1:], modes) for i in range(n) for j in range(i + 1, n)}
    elif other is MutationIntegerSpecificArrity:
        want = {(perm, ms) for ms in itertools.product(*[sorted(inst['modes'][t]) for t in inst['tasks'][1:-1]])}
    else:
        want = None
    if want is not None:
        expect_eq(set(d), want, lambda: at() + ': results')
    rec.state()
    rec.trans(len(d))


def catalog(rec, c):
    kind = c
    if kind == 'rcpsp':
        inst = P.instance((), (1, 2), [{'R': 1}, {'R': 1}], {'R': 2})
        prob = build_model(inst, 20)
        want = {PM.PermutationShuffleMutation, PM.PermutationPartialShuffleMutation, PM.PermutationSwap, PM.TwoOptMutation, PermutationMutationRCPSP, MutationIntegerSpecificArrity}
        count = 4 + 4 + 2
    elif kind == 'tsp':
        prob = T.TSPModel2D([T.Point2D(x, y) for x, y in ((0, 0), (2, 0), (2, 2), (0, 2), (1, 3))], 5, use_numba=False)
        want = {PM.PermutationShuffleMutation, PM.PermutationPartialShuffleMutation, PM.PermutationSwap, PM.TwoOptMutation, MT.Mutation2Opt, MT.Mutation2OptIntersection, MT.MutationSwapTSP}
        count = 7
    elif kind == 'knapsack':
        prob = K.KnapsackModel([K.Item(i, 1 + i, 2) for i in range(3)], 4)
        want = {MutationBitFlip, MK.MutationKnapsack, MK.KnapsackMutationSingleBitFlip}
        count = 3
    else:
        prob = Prob()
        want = {PM.PermutationShuffleMutation, PM.PermutationPartialShuffleMutation, PM.PermutationSwap, PM.TwoOptMutation, MutationBitFlip, MutationIntegerSpecificArrity, PermutationMutationRCPSP}
        count = 4 + 1 + 2
    dummy = prob.get_dummy_solution() if kind != 'generic' else Sol((0, 1, 2), (0, 1), (0, 1), (1, 1))
    by_type, lst = get_available_mutations(prob, dummy)
    expect_eq((len(lst), {x[0] for x in lst}), (count, want), 'mutations available for ' + kind)
    expect_eq(set(by_type), {t for t in prob.get_attribute_register().get_types() if t is not TA.LIST_INTEGER}, 'types of mutations available for ' + kind)
    for cls, kw in lst:
        s = dummy.copy()
        mut = cls.build(prob, s, **kw)
        nv, move = mut.mutate(s)
        expect(isinstance(nv, type(dummy)) and hasattr(move, 'backtrack_local_move'), '%s: mutation %s of the catalogue' % (kind, cls.__name__))
        rec.trans()
    rec.state()


# ------------------------------------------------------------------------------------------------ tours
def leg(pts, a, b):
    return math.hypot(pts[a][0] - pts[b][0], pts[a][1] - pts[b][1])


def tour(pts, start, end, perm):
    path = [start] + list(perm) + [end]
    ls = [leg(pts, a, b) for a, b in zip(path, path[1:])]
    return ls, sum(ls)


def crossing(a, b, c, d):
    o = lambda p, q, r: (r[1] - p[1]) * (q[0] - p[0]) > (q[1] - p[1]) * (r[0] - p[0])
    return o(a, c, d) != o(b, c, d) and o(a, b, c) != o(a, b, d)


def tsp(rec, c):
    pts, start, end, kind, kw, how, numba = c
    n = len(pts)
    model = T.TSPModel2D([T.Point2D(*p) for p in pts], n, start_index=start, end_index=end, use_numba=numba)
    inner = [i for i in range(n) if i not in (start, end)]
    near = lambda x, y: abs(x - y) < 1e-6
    cls = {'2opt': MT.Mutation2Opt, 'cross': MT.Mutation2OptIntersection, 'swap': MT.MutationSwapTSP}[kind]
    for perm in itertools.permutations(inner):
        at = lambda: '%s%s of the tour %r of %r (%s)' % (cls.__name__, kw, perm, pts, how)
        ls0, l0 = tour(pts, start, end, perm)

        def valid(s, want=None):
            ls, l = tour(pts, start, end, s.permutation)
            expect(sorted(s.permutation) == inner and (s.start_index, s.end_index) == (start, end), lambda: '%s: %r is no tour' % (at(), s.permutation))
            expect(near(s.length, l) and len(s.lengths) == len(ls) and all(near(a, b) for a, b in zip(s.lengths, ls)), lambda: '%s: lengths of %r are %r (total %r), expected %r (total %r)' % (at(), s.permutation, list(s.lengths), s.length, ls, l))

        def one():
            s = T.SolutionTSP(problem=model, permutation=list(perm))
            mut = cls.build(model, s, **kw)
            if how == 'mutate':
                nv, move = mut.mutate(s)
            else:
                nv, move, obj = mut.mutate_and_compute_obj(s)
                expect(set(obj) == {'length'} and near(obj['length'], tour(pts, start, end, nv.permutation)[1]), lambda: '%s: objective %r of %r' % (at(), obj, nv.permutation))
            k1 = tuple(nv.permutation)
            valid(nv)
            kept = nv.copy()
            ev = model.evaluate(kept)
            expect(near(ev['length'], nv.length), lambda: '%s: length %r evaluated as %r' % (at(), nv.length, ev))
            valid(kept)
            back = move.backtrack_local_move(nv)
            expect_eq(tuple(back.permutation), perm, lambda: '%s: %r undone' % (at(), k1))
            valid(back)
            return k1
        d = distribution(one)
        twoopt = {(i, j): perm[:i] + perm[i:j + 1][::-1] + perm[j + 1:] for i in range(len(perm)) for j in range(i + 1, len(perm))}
        cost = lambda x: tour(pts, start, end, x)[1]
        if kind == 'swap':
            want = set()
            for i in range(len(perm) - 1):
                for j in range(i + 1, min(len(perm), i + 5)):
                    x = list(perm)
                    x[i], x[j] = x[j], x[i]
                    want.add(tuple(x))
            expect_eq(set(d), want, lambda: at() + ': results')
        elif kind == '2opt':
            cand = set(twoopt.values())
            if kw.get('return_only_improvement'):
                cand = {x for x in cand if cost(x) < l0 - 1e-9} | {perm}
                expect(all(cost(x) <= l0 + 1e-9 for x in d), lambda: at() + ': not an improvement')
            expect(set(d) <= cand, lambda: '%s: %r' % (at(), set(d) - cand))
            if kw.get('test_all'):
                best = min(cost(x) for x in set(twoopt.values()) | ({perm} if kw.get('return_only_improvement') else set()))
                expect(all(near(cost(x), best) for x in d), lambda: '%s: %r, the best 2-opt neighbour has length %r' % (at(), d, best))
            elif kw.get('nb_test', 1) == 1 and not kw.get('return_only_improvement'):
                expect_eq(set(d), cand, lambda: at() + ': results')
        else:
            cr = {}
            for i in range(len(perm) - 1):
                for j in range(i + 2, len(perm) - 1):
                    if crossing(pts[perm[i]], pts[perm[i + 1]], pts[perm[j]], pts[perm[j + 1]]):
                        cr[i + 1, j] = twoopt[i + 1, j]
            cand = set(cr.values()) or {perm}
            if cr and kw.get('return_only_improvement'):
                cand = {x for x in cand if cost(x) < l0 - 1e-9} or {perm}
            free = n - 2 < len(perm) - 1 or n - 2 < len(perm)
            expect(set(d) <= cand | ({perm} if free else set()), lambda: '%s: %r, crossings lead to %r' % (at(), set(d), cand))
            if cr:
                expect(set(d) != {perm} or cand == {perm}, lambda: '%s: never removes the crossings %r' % (at(), cr))
        rec.state()
        rec.trans(len(d))


# ------------------------------------------------------------------------------------------------ knapsacks
def knapsack(rec, c):
    items, cap, kind, how, evaluated = c
    model = K.KnapsackModel([K.Item(i + 5, v, w) for i, (v, w) in enumerate(items)], cap, force_recompute_values=kind == 'bits')
    n = len(items)
    for taken in itertools.product((0, 1), repeat=n):
        val = lambda t: sum(v for (v, w), x in zip(items, t) if x)
        wei = lambda t: sum(w for (v, w), x in zip(items, t) if x)
        true = lambda t: {'value': val(t), 'weight_violation': max(0, wei(t) - cap)}
        at = lambda: '%s of %r in %r (%s)' % (kind, taken, c[:2], how)

        def one():
            s = K.KnapsackSolution(problem=model, list_taken=list(taken))
            if evaluated:
                model.evaluate(s)
            mut = {'kp': MK.MutationKnapsack, 'single': MK.KnapsackMutationSingleBitFlip, 'bits': MutationBitFlip}[kind].build(model, s)
            if how == 'mutate':
                nv, move = mut.mutate(s)
            else:
                nv, move, obj = mut.mutate_and_compute_obj(s)
                expect_eq(dict(obj), true(nv.list_taken), lambda: '%s: objective returned for %r' % (at(), nv.list_taken))
            k1 = tuple(int(x) for x in nv.list_taken)
            kept = nv.copy()
            expect_eq(dict(model.evaluate(nv)), true(k1), lambda: '%s: evaluation of %r' % (at(), k1))
            expect_eq(bool(model.satisfy(nv)), wei(k1) <= cap, lambda: '%s: satisfy of %r' % (at(), k1))
            back = move.backtrack_local_move(nv)
            expect_eq(tuple(int(x) for x in back.list_taken), taken, lambda: '%s: %r undone' % (at(), k1))
            expect_eq(dict(model.evaluate(back)), true(taken), lambda: '%s: evaluation after undoing %r' % (at(), k1))
            expect_eq((tuple(int(x) for x in kept.list_taken), dict(model.evaluate(kept))), (k1, true(k1)), lambda: '%s: copy kept of %r' % (at(), k1))
            return k1
        flip = lambda i: taken[:i] + (1 - taken[i],) + taken[i + 1:]
        if kind == 'kp':
            for r in (0.0, 0.79, 0.81, 0.99):
                d = distribution(one, floats=(r,))
                on = [i for i in range(n) if not taken[i] and wei(taken) + items[i][1] <= cap]
                off = [i for i in range(n) if taken[i]]
                r_on = [items[i][0] / items[i][1] for i in on]
                r_off = [items[i][1] / items[i][0] for i in off]
                ref = {}
                if (r < 0.8 and on) or (not off and on):
                    for i, x in zip(on, r_on):
                        add(ref, flip(i), x / sum(r_on))
                elif off:
                    for i, x in zip(off, r_off):
                        add(ref, flip(i), x / sum(r_off))
                else:
                    ref = {taken: 1.}
                expect_eq({k: round(v, 6) for k, v in d.items()}, {k: round(v, 6) for k, v in ref.items()}, lambda: '%s, r = %r: results' % (at(), r))
                rec.trans(len(d))
        elif kind == 'single':
            d = distribution(one)
            expect_eq(rounded(d), rounded({flip(i): 1 / n for i in range(n)}), lambda: at() + ': results')
        else:
            d = distribution(one, floats=(0.05, 0.5))
            expect_eq(rounded(d), rounded({t: 1 / 2 ** n for t in itertools.product((0, 1), repeat=n)}), lambda: at() + ': results')
        rec.state()
        rec.trans(len(d))


# ------------------------------------------------------------------------------------------------ local searches
class Tabled(D.Problem):
    """the cost of each permutation is given by a table"""
    def __init__(self, table, sense=MIN):
        self.table, self.sense, self.log = table, sense, []

    def evaluate(self, s):
        c = self.table[tuple(int(x) for x in s.p)]
        return {'cost': c[0], 'other': c[1]} if isinstance(c, tuple) else {'cost': c}

    def get_attribute_register(self):
        n = len(next(iter(self.table)))
        return D.EncodingRegister({'p': {'name': 'p', 'type': [TA.PERMUTATION], 'range': range(n), 'n': n}})

    def get_objective_register(self):
        return D.ObjectiveRegister(self.sense, D.ObjectiveHandling.SINGLE, {'cost': {'type': D.TypeObjective.OBJECTIVE, 'default_weight': 1}})


class Spy(Mutation):
    """records what is mutated and into what"""
    def __init__(self, inner):
        self.inner, self.log = inner, []

    def mutate(self, s):
        k = tuple(int(x) for x in s.p)
        r = self.inner.mutate(s)
        self.log.append((k, tuple(int(x) for x in r[0].p)))
        return r

    def mutate_and_compute_obj(self, s):
        k = tuple(int(x) for x in s.p)
        r = self.inner.mutate_and_compute_obj(s)
        self.log.append((k, tuple(int(x) for x in r[0].p)))
        return r


def build_spy(kind, prob, s):
    cls = {'swap': PM.PermutationSwap, '2opt': PM.TwoOptMutation, 'partial': PM.PermutationPartialShuffleMutation, 'shuffle': PM.PermutationShuffleMutation}[kind]
    return Spy(cls.build(prob, s, **({'proportion': 0.7} if kind == 'partial' else {})))


def stored(store, value):
    """the content of a storage, each solution with its fitness, checked against its evaluation"""
    out = []
    for s, f in store.list_solution_fits:
        k = tuple(int(x) for x in s.p)
        out.append((k, f))
        expect_eq(f, value(k), lambda: 'stored solution %r' % (k,))
    return out


def search(rec, c):
    algo, table, start, mutation, mode, store_sol, weight, sense, limit, how, iters, temp, r = c
    table = dict(table)
    better = (lambda a, b: a > b) if sense is MAX else (lambda a, b: a < b)
    value = lambda k: table[k] * weight

    def one():
        prob = Tabled(table, sense)
        init = Sol(start)
        spy = build_spy(mutation, prob, init)
        par = D.ParamsObjectiveFunction(D.ObjectiveHandling.AGGREGATE, ['cost'], [weight], sense)
        rh = RestartHandler() if limit is None else RestartHandlerLimit(limit, cur_solution=init, cur_objective=value(start))
        kw = dict(evaluator=prob, mutator=spy, restart_handler=rh, mode_mutation=how, params_objective_function=par, store_solution=store_sol)
        if algo == 'hc':
            ls = HillClimber(**kw)
        else:
            ls = SimulatedAnnealing(temperature_handler=TemperatureSchedulingFactor(temp, rh, coefficient=0.5), **kw)
        store = ls.solve(init, nb_iteration_max=iters)
        return init.key()[0], tuple(spy.log), tuple(stored(store, value)), tuple(store.get_best_solution().p), tuple(store.best_solution.p), store.get_best_solution_fit()[1], tuple(store.get_last_best_solution()[0].p)
    at = lambda: '%s from %r, %r' % (algo, start, c[1:])
    for res, ch, _ in nondet.explore(one, floats=(r,)):
        if res[0] == 'exc':
            raise res[1]
        init, log, content, best, best2, fit, last = res[1]
        what = lambda: '%s, steps %r' % (at(), log)
        expect_eq(init, start, lambda: what() + ': the initial solution was modified')
        expect_eq(len(log), iters, lambda: what() + ': number of iterations')
        cur, b, best_k = start, value(start), start
        imp = [start]
        noloc = noglob = 0
        for i, (src, dst) in enumerate(log):
            expect_eq(src, cur, lambda: '%s: solution mutated at iteration %d' % (what(), i))
            v, vc = value(dst), value(cur)
            local = better(v, vc)
            glob = better(v, b)
            acc = local
            if algo == 'sa' and not local:
                d = (v - vc) * (1 if sense is MAX else -1)
                acc = math.exp(d / (temp * 0.5 ** i)) > r
            if acc:
                cur = dst
            if local and glob:
                b, best_k = v, dst
                imp.append(dst)
            noglob = 0 if local and glob else noglob + 1
            noloc = 0 if local else noloc + 1
            if limit is not None and (noglob > limit or noloc > limit):
                noglob = noloc = 0
                cur = best_k
        visited = [start] + [x for _, x in log] if store_sol else imp
        expect_eq(set(content), {(k, value(k)) for k in visited}, lambda: what() + ': solutions stored')
        f = max if sense is MAX else min
        bv = f(value(k) for k in [start] + [x for _, x in log])
        expect_eq((value(best), fit, value(last), value(best2)), (bv,) * 4, lambda: what() + ': best solution')
        rec.trace()
        rec.trans(len(log))
        if limit is None and algo == 'hc':
            rec.outcome((start, log))
    rec.state()


def search_pareto(rec, c):
    table, start, mutation, sense, weights, how, iters, upd, limit = c
    table = dict(table)
    sg = 1 if sense is MAX else -1
    val = lambda k: tuple(w * x for w, x in zip(weights, table[k]))
    above = lambda u, v: u != v and all(sg * a >= sg * b for a, b in zip(u, v))

    def one():
        prob = Tabled(table, sense)
        init = Sol(start)
        spy = build_spy(mutation, prob, init)
        par = D.ParamsObjectiveFunction(D.ObjectiveHandling.MULTI_OBJ, ['cost', 'other'], list(weights), sense)
        rh = RestartHandler() if limit is None else RestartHandlerLimit(limit, cur_solution=init, cur_objective=D.TupleFitness(np.array(val(start)), 2))
        ls = HillClimberPareto(evaluator=prob, mutator=spy, restart_handler=rh, mode_mutation=how, params_objective_function=par, store_solution=True)
        pf = ls.solve(init, nb_iteration_max=iters, update_iteration_pareto=upd)
        return init.key()[0], tuple(spy.log), tuple((tuple(s.p), tuple(t.vector_fitness)) for s, t in pf.paretos), tuple((tuple(s.p), tuple(t.vector_fitness)) for s, t in pf.list_solution_fits)
    at = lambda: 'pareto climb from %r, %r' % (start, c)
    for res, ch, _ in nondet.explore(one):
        if res[0] == 'exc':
            raise res[1]
        init, log, front, content = res[1]
        what = lambda: '%s, steps %r' % (at(), log)
        expect_eq(init, start, lambda: what() + ': the initial solution was modified')
        expect_eq(len(log), iters, lambda: what() + ': number of iterations')
        cur = start
        best = start
        noloc = noglob = 0
        for i, (src, dst) in enumerate(log):
            expect_eq(src, cur, lambda: '%s: solution mutated at iteration %d' % (what(), i))
            acc = not above(val(cur), val(dst))
            eq = not above(val(dst), val(cur))
            if acc:
                glob = above(val(dst), val(best)) if not eq else not above(val(dst), val(best)) and not above(val(best), val(dst))
                cur = dst
                if glob:
                    best = dst
            noglob = 0 if acc and glob else noglob + 1
            noloc = 0 if acc else noloc + 1
            if limit is not None and (noglob > limit or noloc > limit):
                noglob = noloc = 0
                cur = best
        for k, v in front + content:
            expect_eq(tuple(v), val(k), lambda: '%s: fitness of %r' % (what(), k))
        visited = {start} | {x for _, x in log}
        vals = {val(k) for k in visited}
        expect_eq({v for _, v in front}, {v for v in vals if not any(above(u, v) for u in vals)}, lambda: what() + ': front')
        rec.trace()
        rec.trans(len(log))
    rec.state()


def build(ck):
    ck.rule = ('every random outcome of every mutation from every small solution is enumerated with its probability and compared with the announced neighbourhood; each result is valid, evaluates to the objective returned, is undone and redone by its move, and copies kept stay unchanged; '
               'local searches run in lockstep with their definition on tables of costs, over all outcomes of the mutations: solutions mutated, accepted, restarted and stored, best solution')
    ck.scope = 'permutations of 1-4 elements, 3 bits or integers, 2-3 tasks, tours of 3-4 inner points, 3-4 items; searches of 3-4 iterations on tables of 6 permutations'
    A = [None, 'p', 'q']
    H = ('mutate', 'compute')
    cases = [('shuffle', n, None, a, h, d) for n in (1, 2, 3, 4) for a in A for h in H for d in (True, False)]
    cases += [('partial', n, pr, a, h, d) for n in (1, 2, 3, 4) for pr in (None, 0.0, 0.5, 0.75, 1.0) for a in A for h in H for d in (True, False) if n < 4 or (pr or 0.3) < 0.8]
    cases += [('swap', n, k, a, h, d) for n in (1, 2, 3, 4) for k in (None, 1, 2) for a in A for h in H for d in (True, False)] + [('swap', 3, 3, 'p', 'mutate', True)]
    cases += [('2opt', n, None, a, h, d) for n in (2, 3, 4) for a in A for h in H for d in (True, False)]
    ck.run(cases, permutations, 'permutations', chunk=2, timeout=300)
    ck.run([(k, n, a) for k in ('swap', '2opt') for n in (2, 3, 4) for a in 'pq'], moves, 'moves of several steps', chunk=1)
    ck.run([(k, h, p, d, df) for k in ('bit', 'int') for h in H for p in (None, 0.1, 0.5, 1.0) for d in (True, False) for df in (True, False)], flips, 'bits and integers', chunk=1)
    ck.run([(cl, w, h, a) for cl in (BasicPortfolioMutation, BasicPortfolioMutationTrack) for w in [(1,), (1, 1), (1, 3), (0, 2), (2, 0, 6), (1, 2, 1)] for h in H for a in (True, False)], portfolio, 'portfolios', chunk=2)
    RM = [(PermutationMutationRCPSP, {'other_mutation': o}, e) for o in (PM.PermutationShuffleMutation, PM.TwoOptMutation) for e in (True, False)]
    RM += [(PermutationMutationRCPSP, {'other_mutation': PM.PermutationPartialShuffleMutation, 'proportion': 0.7}, e) for e in (True, False)] + [(PermutationMutationRCPSP, {'other_mutation': PM.PermutationSwap, 'nb_swap': 2}, e) for e in (True, False)]
    RM += [(PM.PermutationSwap, {}, True), (PM.TwoOptMutation, {}, True), (PM.PermutationShuffleMutation, {}, True), (PM.PermutationPartialShuffleMutation, {'proportion': 0.7}, True)]
    MM = [(PermutationMutationRCPSP, {'other_mutation': MutationIntegerSpecificArrity, 'probability_flip': 0.1}, e) for e in (True, False)] + [(MutationIntegerSpecificArrity, {'probability_flip': 0.1}, True)]
    N3 = [{'R': 1}, {'R': 2}, {'R': 2}]
    cases = [(e, (1, 2, 1), N3, {'R': 2}, (), None, p, (1, 1, 1), w, h) for e in ((), ((0, 1),)) for p in itertools.permutations(range(3)) for w in RM for h in H]
    cases += [((), (1, 2), [{'R': 1, 'S': 1}, {'R': 2, 'S': 1}], {'R': 2, 'S': 3}, ('S',), {0: {2: (3, {'R': 0, 'S': 0})}, 1: {2: (1, {'R': 1, 'S': 2})}}, p, ms, w, h)
              for p in itertools.permutations(range(2)) for ms in ((1, 1), (1, 2), (2, 1), (2, 2)) for w in MM + RM[:2] for h in H]
    ck.run(cases, rcpsp, 'scheduling', chunk=2, timeout=300)
    ck.run(['rcpsp', 'tsp', 'knapsack', 'generic'], catalog, 'catalogue', chunk=1)
    warm = T.TSPModel2D([T.Point2D(0., 0.), T.Point2D(1., 0.), T.Point2D(1., 1.), T.Point2D(0., 1.)], 4)
    warm.evaluate(warm.get_dummy_solution())
    PTS = [((0, 0), (4, 0), (4, 3), (0, 3), (1, 5)), ((0, 0), (1, 4), (2, 1), (3, 5), (5, 0)), ((0, 0), (1, 0), (2, 0), (3, 0), (4, 1))]
    PT6 = [p + (q,) for p, q in zip(PTS, ((3, 1), (4, 4), (2, 2)))]
    ends = [(p, 0, 0) for p in PTS] + [(p, 0, 5) for p in PT6[:2]] + [(PT6[0], 2, 1)]
    cases = [(p, s, e, '2opt', dict(kw, return_only_improvement=o), h, nb) for p, s, e in ends for kw in ({'test_all': True}, {'nb_test': 1}, {'nb_test': 2}) for o in (False, True) for h in H for nb in (False, True)
             if kw.get('nb_test') != 2 or (len(p) == 5 and not nb and h == 'compute')]
    cases += [(p, s, e, '2opt', {'test_all': True, 'nb_test': 200}, 'compute', True) for p, s, e in ends]
    cases += [(p, s, e, 'cross', kw, h, nb) for p, s, e in ends for kw in ({}, {'return_only_improvement': True}) for h in H for nb in (False, True)]
    cases += [(p, s, e, 'swap', {}, h, nb) for p, s, e in ends for h in H for nb in (False, True)]
    ck.run(cases, tsp, 'tours', chunk=1, timeout=300)
    I = [((1, 1), (2, 1), (3, 2)), ((5, 2), (2, 3), (4, 4)), ((1, 2), (1, 2), (3, 1), (2, 5))]
    ck.run([(i, cap, k, h, e) for i in I for cap in (0, 2, 4, 9) for k in ('kp', 'single', 'bits') for h in H for e in (True, False) if k != 'bits' or len(i) == 3], knapsack, 'knapsacks', chunk=2)
    perms = list(itertools.permutations(range(3)))
    TB = [(3, 1, 2, 5, 4, 0), (1, 1, 2, 2, 0, 3), (0, 4, 4, 4, 4, 4)]
    tabs = [tuple(zip(perms, t)) for t in TB]
    MO = ModeMutation
    its = 4 if THOROUGH else 3
    cases = [('hc', t, s, m, None, st, w, se, lim, h, its, None, 0.5) for t in tabs for s in perms[::2] for m in ('swap', '2opt', 'partial', 'shuffle') for st in (True, False) for w, se in ((1, MIN), (-1, MAX), (1, MAX)) for lim in (None, 0, 1)
             for h in (MO.MUTATE, MO.MUTATE_AND_EVALUATE) if m in ('swap', '2opt') or (lim is None and s == perms[0])]
    cases += [('sa', t, s, m, None, st, w, se, lim, h, its, temp, r) for t in tabs[:2] for s in perms[1::3] for m in ('swap', '2opt') for st in (True, False) for w, se in ((1, MIN), (1, MAX), (-2, MAX)) for lim in (None, 1)
              for h in (MO.MUTATE, MO.MUTATE_AND_EVALUATE) for temp, r in ((1., 0.0), (1., 0.3), (2., 0.6), (3., 0.95)) if (h is MO.MUTATE or r == 0.3) and (m == '2opt' or (lim is None and st))]
    ck.run(cases, search, 'local searches', chunk=2, timeout=600)
    T2 = [((3, 0), (1, 1), (2, 2), (0, 3), (3, 3), (0, 0)), ((1, 1), (1, 2), (2, 1), (0, 0), (1, 1), (2, 2)), ((0, 1), (1, 0), (1, 1), (0, 1), (2, 0), (0, 2))]
    cases = [(tuple(zip(perms, t)), s, m, se, w, h, its, upd, lim) for t in T2 for s in perms for m in ('swap', '2opt') for se, w in ((MAX, (1, 1)), (MAX, (-1, 1)), (MIN, (1, 1)), (MIN, (2, -1))) for h in (MO.MUTATE, MO.MUTATE_AND_EVALUATE)
             for upd, lim in ((1, None), (1000, None), (1000, 0), (1, 1)) if m == '2opt' or (lim is None and upd == 1 and s in perms[:2])]
    ck.run(cases, search_pareto, 'Pareto searches', chunk=4, timeout=600)
    ck.sample({'mutation': 'PermutationSwap', 'permutation': [0, 2, 1], 'nb_swap': 2})
