"""C31: the loops of the large neighbourhood searches, with scripted solvers, neighbourhoods, post processing and clock."""
import contextlib
import itertools
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet  # noqa: F401
from skdecide.builders.discrete_optimization.generic_tools import do_problem as D, lns_mip as LM, lns_cp as LC
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from checks.c23_results import Sol, Prob

MAX, MIN = D.ModeOptim.MAXIMIZATION, D.ModeOptim.MINIMIZATION


class Clock:
    now = 0.

    def time(self):
        return self.now

    def __getattr__(self, a):
        import time
        return getattr(time, a)


def script(kinds, sense, start, post):
    """per iteration: results of the solver (None: it fails), the same after the post processing, whether they improve the best"""
    up = 1 if sense == MAX else -1
    top = max if sense == MAX else min
    best = top(f for _, f in start) if start else None
    out = []
    for i, k in enumerate(kinds):
        base = 100. if best is None else best
        r = {'better': [(10 * i, base + 3 * up)], 'equal': [(10 * i, base)], 'worse': [(10 * i, base - 2 * up)], 'none': [], 'raise': None,
             'two': [(10 * i, base - 5 * up), (10 * i + 1, base + 2 * up), (10 * i + 2, base - 1 * up)], 'same': [(1, base)]}[k]
        if k != 'same':
            r = r and [(a + 10, f) for a, f in r]
        p = r
        if r and post != 'trivial':
            f = top(x[1] for x in r)
            p = r + [(10 * i + 15, f + up)] if post == 'improves' else [(10 * i + 16, f - up)]
        better = bool(p) and (best is None or up * top(x[1] for x in p) > up * best)
        if better:
            best = top(x[1] for x in p)
        out.append((r, p, better))
    return out


def pairs_of(store):
    return sorted({(s.key, f) for s, f in store.list_solution_fits})


def storage(pairs, sense):
    return ResultStorage(list_solution_fits=[(Sol(k, {'a': f}), f) for k, f in pairs], mode_optim=sense)


class Post(LM.PostProcessSolution):
    def __init__(self, w):
        self.w = w

    def build_other_solution(self, result_storage):
        w = self.w
        before, after, _ = w.script[w.i]
        expect_eq(pairs_of(result_storage), sorted(before), 'given to the post processing')
        if len(after) > len(before):
            result_storage.list_solution_fits += [(Sol(k, {'a': f}), f) for k, f in after[-1:]]
            return result_storage
        return storage(after, w.sense)


class World:
    """the collaborators of one search: they record what is active when the solver runs"""
    def __init__(self, cp, kinds, sense, start, post, cost):
        self.cp, self.cost = cp, cost
        self.sense, self.script = sense, script(kinds, sense, start, post)
        self.i = -1
        self.start = start
        self.active = {}
        self.solves = []
        self.child = None
        self.instance = self

    # initial solutions
    def get_starting_solution(self):
        expect(self.start, 'no initial solution is asked when it is skipped')
        self.asked = getattr(self, 'asked', 0) + 1
        return storage(self.start, self.sense)

    # neighbourhoods
    def adding_constraint_from_results_store(self, result_storage, milp_solver=None, cp_solver=None, child_instance=None):
        expect((cp_solver if self.cp else milp_solver) is self, 'solver given to the neighbourhood')
        if self.cp:
            expect(child_instance is self.child, 'neighbourhood added to the branch')
        token = 'token %d' % (len(self.active) + 1000 * self.i)
        self.active[token] = pairs_of(result_storage)
        return {token: token}

    def remove_constraints_from_previous_iteration(self, previous_constraints, milp_solver=None, cp_solver=None, child_instance=None):
        for t in previous_constraints:
            expect(t in self.active, lambda: 'constraints removed were added: %r' % (t,))
            del self.active[t]

    # solver
    def run(self):
        self.i += 1
        self.solves.append(sorted(self.active.values()))
        CLOCK.now += self.cost
        r = self.script[self.i][0]
        if r is None:
            raise RuntimeError('scripted failure')
        return r

    def solve(self, parameters_milp=None, **kw):       # milp
        expect(parameters_milp is self.params, 'parameters of the solver')
        expect_eq(kw, {'extra': 1}, 'arguments of the solver')
        return storage(self.run(), self.sense)

    @contextlib.contextmanager
    def branch(self):
        self.child = Child(self)
        self.active = {}        # constraints live in their branch
        yield self.child
        self.child = None

    def retrieve_solutions(self, result, parameters_cp):
        expect(parameters_cp is self.params, 'parameters of the results')
        return storage(result.pairs, self.sense)


class Result:
    status = 'SATISFIED'


class Child:
    def __init__(self, w):
        self.w = w

    def solve(self, timeout, intermediate_solutions):
        w = self.w
        expect(self is w.child, 'the branch is solved')
        expect_eq(timeout.total_seconds(), w.params.TimeLimit_iter0 if w.i < 0 else w.params.TimeLimit, 'time limit of the iteration')
        expect_eq(intermediate_solutions, w.params.intermediate_solution, 'intermediate solutions')
        r = Result()
        r.pairs = w.run()
        return r


CLOCK = Clock()
LM.time = LC.time = CLOCK
START = {'none': None, 'one': [(0, 100.)], 'two': [(0, 90.), (1, 100.), (2, 105.)]}


def search(rec, c):
    cp, kinds, sense, start, post, limit, most, cost = c
    CLOCK.now = 5000.
    w = World(cp, kinds, sense, START[start], post, cost)
    problem = Prob([('a', 1.)], sense)
    params = D.ParamsObjectiveFunction(D.ObjectiveHandling.AGGREGATE, ['a'], [1.], sense)
    common = dict(problem=problem, initial_solution_provider=w, constraint_handler=w, params_objective_function=params)
    if post != 'trivial':
        common['post_process_solution'] = Post(w)
    kw = {}
    if limit is not None:
        kw['nb_iteration_no_improvement'] = limit
    if most is not None:
        kw['max_time_seconds'] = most
    if start == 'none':
        kw['skip_first_iteration'] = True
    if cp:
        w.params = ParametersCP.default()
        w.params.TimeLimit, w.params.TimeLimit_iter0, w.params.intermediate_solution = 7, 11, bool(len(kinds) % 2)
        store = LC.LNS_CP(cp_solver=w, **common).solve_lns(parameters_cp=w.params, nb_iteration_lns=len(kinds), **kw)
    else:
        w.params = ParametersMilp.default()
        store = LM.LNS_MILP(milp_solver=w, **common).solve_lns(parameters_milp=w.params, nb_iteration_lns=len(kinds), extra=1, **kw)
    # reference
    if start != 'none':
        expect_eq(w.asked, 1, 'initial solutions are asked once')
    have = dict(START[start] or [])
    last = sorted(have.items()) if START[start] else None
    seen, count = [], 0
    for i in range(len(kinds)):
        seen.append([last] if last is not None else [])
        _, got, better = w.script[i]
        for k, f in got or []:
            have.setdefault(k, f)
        if cp:
            last = sorted(have.items()) if have else None
        else:
            last = sorted(got)
        count = 0 if better else count + 1
        rec.trans()
        if most is not None and cost * (i + 1) > most:
            break
        if count > (limit if limit is not None else 2 * len(kinds)):
            break
    expect_eq(len(w.solves), len(seen), lambda: 'iterations of %r' % (c,))
    expect_eq(w.solves, seen, lambda: 'neighbourhoods in force at each iteration of %r' % (c,))
    if have:
        expect_eq(pairs_of(store), sorted(have.items()), lambda: 'solutions returned by %r' % (c,))
        f = max(have.values()) if sense == MAX else min(have.values())
        expect_eq(store.get_best_solution_fit()[1], f, 'best solution')
    rec.state()
    rec.outcome(len(seen))


def build(ck):
    N = 5 if THOROUGH else 4
    jobs = []
    for cp in (False, True):
        kinds = ('better', 'equal', 'worse', 'two') + (('none', 'raise') if cp else ())
        for n in range(N + 1):
            for ks in itertools.product(kinds, repeat=n):
                for sense in (MAX, MIN):
                    for start in START:
                        jobs.append((cp, ks, sense, start, ('trivial', 'improves', 'replaces')[len(jobs) % 3], None, None, 0.))
                        if n > 1:
                            for limit in (0, 1, 2):
                                jobs.append((cp, ks, sense, start, ('trivial', 'improves', 'replaces')[(len(jobs) + limit) % 3], limit, None, 1.))
                            for most in (1, 2.5):
                                jobs.append((cp, ks, sense, start, 'trivial', (None, 1)[len(jobs) % 2], most, 1.))
        for ks in itertools.product(('same', 'better', 'worse'), repeat=3):
            for start in ('one', 'two'):
                jobs.append((cp, ks, MIN, start, 'trivial', None, None, 0.))
    ck.run(jobs, search, 'searches', chunk=200, timeout=300)
