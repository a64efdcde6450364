"""C07: LRTAstar, run to convergence on every small weighted graph."""
import itertools

from mc.core import expect, expect_eq, THOROUGH
from checks.graphs import GraphDom, dist_to, INF
from checks.c06_lazyastar import follow

from skdecide.hub.solver.lrtastar import LRTAstar

ITER = 60


def one(rec, succ, goals, src, hname=None, h=None, names=None, acts=None, via_init=True, solver=None, **kw):
    d = dist_to(succ, goals)
    what = lambda: 'graph %r goals %r from %r heuristic %s %r' % (succ, goals, src, hname, kw)
    nm = names or list(range(len(succ)))
    if solver is None:
        if h is not None:
            kw['heuristic'] = lambda dm, s: h[dm.back[s]]
        if not via_init:
            kw['from_state'] = nm[src]
        kw.setdefault('max_iter', ITER)
        solver = LRTAstar(**kw)
    init = src if via_init else 0
    made = []

    def fac():
        made.append(GraphDom(succ, goals, init, nm, acts))
        return made[-1]

    GraphDom.solve_with(solver, fac)
    dom = GraphDom(succ, goals, init, nm, acts)
    if d[src] == INF:
        for s in range(len(succ)):
            expect(not solver.is_policy_defined_for(nm[s]), lambda: '%s: the goal is unreachable but there is a policy for %r' % (what(), nm[s]))
        return solver
    cost, path = follow(rec, solver, dom, src, goals, d, 1, what)
    expect(abs(cost - d[src]) < 1e-9, lambda: '%s: converged on %r of cost %r, optimum is %r' % (what(), path, cost, d[src]))
    for s in path:
        u = solver.get_utility(nm[s])
        if s in goals:
            expect_eq(u, h[s] if h is not None else 0, lambda: '%s: utility of the goal %r' % (what(), s))
        else:
            expect(abs(u - d[s]) < 1e-9, lambda: '%s: learned utility of %r is %r, optimal cost to go %r' % (what(), s, u, d[s]))
    rec.trace()
    rec.outcome((d[src], len(path)))
    return solver


def block4(rec, c):
    s0, costs, full = c
    pairs = [p for p in itertools.product(list(itertools.product(range(4), costs)), repeat=2)]
    some = [p for p in pairs if p[0] <= p[1]]
    for s1 in some:
        for s2 in (some if not full else pairs):
            succ = (s0, s1, s2, ((3, 1),))
            d = dist_to(succ, (3,))
            if d[0] == INF and hash((s1, s2)) % 16:
                continue
            rec.state(succ)
            one(rec, succ, (3,), 0)
            if d[0] < INF and hash((s1, s2)) % 5 == 0:
                fin = [x if x < INF else 7 for x in d]
                one(rec, succ, (3,), 0, 'perfect', d)
                one(rec, succ, (3,), 0, 'half', [x / 2 for x in fin])
                one(rec, succ, (3,), 0, 'min1', [min(x, 1) for x in fin])
                one(rec, succ, (1, 3), 0)


def block_dag(rec, c):
    part, costs, n = c
    E = [(i, j) for i in range(n) for j in range(i + 1, n)]
    k = 0
    for ws in itertools.product(*([costs] * (len(E) - len(part)))):
        wv = part + ws
        if sum(1 for x in wv[:n - 1] if x) == 0:
            continue
        k += 1
        if not THOROUGH and k % 2:
            continue
        succ = [[] for _ in range(n)]
        for (i, j), w_ in zip(E, wv):
            if w_ is not None:
                succ[i].append((j, w_))
        if k % 4 < 2:
            succ = [list(reversed(x)) for x in succ]
        succ = tuple(tuple(x) for x in succ)
        rec.state(succ)
        one(rec, succ, (n - 1,), 0)
        if k % 8 == 0:
            d = dist_to(succ, (n - 1,))
            fin = [x if x < INF else 9 for x in d]
            one(rec, succ, (n - 1,), 0, 'half', [x / 2 for x in fin])
            one(rec, succ, (n - 1,), 1, 'half', [x / 2 for x in fin], via_init=False)
            one(rec, succ, (n - 1,), 1, via_init=False)


def block_misc(rec, c):
    succ, goals, src, names, acts = c
    n = len(succ)
    d = dist_to(succ, goals)
    fin = [x if x < INF else 7 for x in d]
    for hn, h in (('none', None), ('perfect', d), ('half', [x / 2 for x in fin])):
        for via in (True, False):
            one(rec, succ, goals, src, hn, h, names, acts, via)
    for goals2, src2 in (((), src), (goals, (src + 1) % n), ((src,), src)):
        solver = LRTAstar(max_iter=ITER)
        for g, sr in ((goals, src), (goals2, src2)):
            one(rec, succ, g, sr, 'solved again after %r' % ((succ, goals, src),), None, names, acts, True, solver)
    # no action in the initial state, never more trials than asked for, nor deeper than asked for
    for mi in (0, 1, 2):
        for md in (1, 2, 10):
            made = []

            def fac():
                made.append(GraphDom(succ, goals, src, names, acts))
                return made[-1]

            s = LRTAstar(max_iter=mi, max_depth=md)
            GraphDom.solve_with(s, fac)
            width = max(len(x) for x in succ)
            expect(made[0].calls <= (mi + 1) * md * width, lambda: '%r max_iter %r max_depth %r: %r transitions were '
                   'generated, more than trials x depth x actions' % (succ, mi, md, made[0].calls))
    rec.state(repr(c))


def build(ck):
    ck.rule = ('all small weighted graphs x consistent heuristics; LRTAstar run to convergence, its policy executed and its values '
               'compared with exact shortest paths')
    costs = (1, 3) if not THOROUGH else (1, 2, 5)
    ck.scope = '4 states x 2 actions x costs %r; 5-state DAGs, costs {absent,1,3}; 3 heuristics; re-solving; trial budgets' % (costs,)
    pairs = [p for p in itertools.product(list(itertools.product(range(4), costs)), repeat=2)]
    ck.run([(p, costs, False) for p in pairs], block4, '4-state graphs', timeout=600, chunk=1)
    ec = (None, 1, 3)
    ck.run([((a, b, c), ec, 5) for a in ec for b in ec for c in ec], block_dag, '5-state DAGs', timeout=600, chunk=1)
    misc = []
    base = [(((1, 1), (2, 5)), ((2, 1), (0, 1)), ((2, 1),)), (((1, 2), (1, 1)), ((0, 1), (2, 2)), ((0, 1), (1, 1))),
            (((0, 1),), ((2, 1),), ((1, 1),)), (((1, 0.5), (2, 0.25)), ((2, 3),), ())]
    for su in base:
        for goals in ((2,), (1, 2), (0,), (), (0, 1, 2), (1,)):
            for src in range(3):
                for names in ([0, 1, 2], ['a', 'b', 'c'], [(0, 0), (0, 1), (1, 0)], [frozenset('x'), frozenset(), frozenset('y')]):
                    for acts in ([0, 1], ['up', 'down'], [(0,), (1,)]):
                        misc.append((su, goals, src, names, acts))
    ck.run(misc, block_misc, 'names, goals, re-solving, budgets')
    ck.sample({'graph': base[0], 'goals': (2,), 'from': 0})
