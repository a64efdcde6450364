"""C06: LazyAstar plans, on every small weighted graph."""
import itertools

from mc.core import expect, expect_eq, THOROUGH
from checks.graphs import GraphDom, dist_to, INF

from skdecide.hub.solver.lazy_astar import LazyAstar


def follow(rec, solver, dom, src, goals, opt, bound, what):
    """Execute the policy from src: returns the cost; every step is checked."""
    s, cost, seen, path = src, 0, set(), [src]
    while s not in goals:
        n = dom.names[s]
        expect(solver.is_policy_defined_for(n), lambda: '%s: no policy for %r on the plan %r' % (what(), n, path))
        a = solver.get_next_action(n)
        expect(a in dom.acts[:len(dom.succ[s])], lambda: '%s: action %r is not applicable in %r' % (what(), a, n))
        expect(s not in seen, lambda: '%s: the policy loops: %r' % (what(), path))
        seen.add(s)
        t, c = dom.succ[s][dom.acts.index(a)]
        cost += c
        s = t
        path.append(t)
        rec.trans()
    return cost, path


def heuristics(d, goals, n):
    """(name, table, consistent?, admissible?)"""
    z = [0.0] * n
    fin = [x if x < INF else 7 for x in d]
    yield 'none', None
    yield 'zero', z
    yield 'perfect', d
    yield 'half', [x / 2 for x in fin]
    yield 'min1', [min(x, 1) for x in fin]


def one(rec, succ, goals, src, hname, h, w, names=None, acts=None, via_init=True):
    n = len(succ)
    d = dist_to(succ, goals)
    init = src if via_init else 0
    what = lambda: 'graph %r goals %r from %r heuristic %s weight %s' % (succ, goals, src, hname, w)
    kw = {}
    if h is not None:
        kw['heuristic'] = lambda dm, s: h[dm.back[s]]
    if w != 1:
        kw['weight'] = w
    made = []
    nm = names or list(range(n))
    if not via_init:
        kw['from_state'] = nm[src]
    solver = LazyAstar(**kw)
    dom = GraphDom(succ, goals, init, nm, acts)
    solver = GraphDom.solve_with(solver, lambda: GraphDom(succ, goals, init, nm, acts))
    check(rec, solver, dom, succ, goals, src, d, h, w, what)
    return solver


def check(rec, solver, dom, succ, goals, src, d, h, w, what):
    if d[src] == INF:
        for s in range(len(succ)):
            expect(not solver.is_policy_defined_for(dom.names[s]), lambda: what() + ': no plan exists but the policy is defined')
    else:
        cost, path = follow(rec, solver, dom, src, goals, d, w, what)
        if w == 1:
            expect(abs(cost - d[src]) < 1e-9, lambda: '%s: plan %r costs %r, optimum is %r' % (what(), path, cost, d[src]))
            acc = 0
            for i, s in enumerate(path):
                u = solver.get_utility(dom.names[s])
                expect(abs(u - d[s]) < 1e-9, lambda: '%s: utility of %r is %r, optimal cost to go is %r' % (what(), s, u, d[s]))
        else:
            expect(cost <= w * d[src] + 1e-9, lambda: '%s: plan %r costs %r, more than weight x optimum %r' % (what(), path, cost, d[src]))
        on = set(path)
        for s in range(len(succ)):
            if s not in on:
                expect(not solver.is_policy_defined_for(dom.names[s]), lambda: what() + ': policy defined for %r, off the plan %r' % (s, path))
    # elsewhere the utility is the heuristic estimate
    on = set(path) if d[src] < INF else set()
    for s in range(len(succ)):
        if s not in on:
            u = solver.get_utility(dom.names[s])
            expect_eq(u, h[s] if h is not None else 0, what() + ': utility of a state off the plan')
    rec.trace()
    rec.outcome((d[src], len(on)))


def block4(rec, c):
    """All graphs of 4 states where states 0..2 have two actions over (target, cost)."""
    first, costs, full = c
    opts = list(itertools.product(range(4), costs))
    pairs = [p for p in itertools.product(opts, repeat=2)]
    s0 = pairs[first]
    if s0[0] > s0[1]:
        pass
    for s1 in pairs:
        if s1[0] > s1[1] and not full:
            continue
        for s2 in pairs:
            if s2[0] > s2[1] and not full:
                continue
            succ = (s0, s1, s2, ((3, 1),))
            rec.state(succ)
            one(rec, succ, (3,), 0, 'none', None, 1)
            if hash((s1, s2)) % 6 == 0 or full:
                d = dist_to(succ, (3,))
                for hn, h in itertools.islice(heuristics(d, (3,), 4), 2, None):
                    one(rec, succ, (3,), 0, hn, h, 1)
                one(rec, succ, (3,), 0, 'half', [x / 2 if x < INF else 7 for x in d], 2)
                one(rec, succ, (1, 3), 0, 'none', None, 1)


def block_dag(rec, c):
    """All weighted DAGs of 5 states (forward edges absent or with one of the costs) and reversed state order."""
    part, costs = c
    E = [(i, j) for i in range(5) for j in range(i + 1, 5)]
    for ws in itertools.product(*([costs] * (len(E) - len(part)))):
        wv = part + ws
        for rev in ((False, True) if THOROUGH else (sum(1 for x in wv if x) % 2 == 0,)):
            succ = [[] for _ in range(5)]
            for (i, j), w_ in zip(E, wv):
                if w_ is not None:
                    succ[i].append((j, w_))
            if rev:
                succ = [list(reversed(x)) for x in succ]
            succ = tuple(tuple(x) for x in succ)
            rec.state(succ)
            one(rec, succ, (4,), 0, 'none', None, 1)
            if sum(1 for x in wv if x) % 3 == 0:
                d = dist_to(succ, (4,))
                fin = [x if x < INF else 9 for x in d]
                one(rec, succ, (4,), 0, 'perfect', d, 1)
                one(rec, succ, (4,), 0, 'half', [x / 2 for x in fin], 1)
                one(rec, succ, (4,), 0, 'half', [x / 2 for x in fin], 3)
                one(rec, succ, (4,), 1, 'half', [x / 2 for x in fin], 1, via_init=False)


def block_weights(rec, c):
    """All weighted DAGs of 4 states with very different edge costs: a state may be reached again by a cheaper path."""
    E = [(i, j) for i in range(4) for j in range(i + 1, 4)]
    for ws in itertools.product(c[1], repeat=len(E) - 1):
        succ = [[] for _ in range(4)]
        for (i, j), w_ in reversed(list(zip(E, (c[0],) + ws))):
            if w_ is not None:
                succ[i].append((j, w_))
        succ = tuple(tuple(x) for x in succ)
        d = dist_to(succ, (3,))
        if d[0] == INF:
            continue
        rec.state(succ)
        fin = [x if x < INF else 30 for x in d]
        for w in (1, 2) if not THOROUGH else (1, 2, 3, 1.5):
            one(rec, succ, (3,), 0, 'perfect', fin, w)
        one(rec, succ, (3,), 0, 'half', [x / 2 for x in fin], 3)


def block_misc(rec, c):
    """State / action names of all kinds, several goals, from_state, initial goal, no goal, re-solving."""
    succ, goals, src, names, acts = c
    d = dist_to(succ, goals)
    for hn, h in heuristics(d, goals, len(succ)):
        for via in (True, False):
            s = one(rec, succ, goals, src, hn, h, 1, names, acts, via)
    # solving again with the same solver object forgets the previous problem
    for goals2, src2 in (((), src), (goals, (src + 1) % len(succ)), ((src,), src)):
        solver = LazyAstar()
        for g, sr in ((goals, src), (goals2, src2)):
            GraphDom.solve_with(solver, lambda: GraphDom(succ, g, sr, names, acts))
            solver = fresh(solver)
            dom = GraphDom(succ, g, sr, names, acts)
            check(rec, solver, dom, succ, g, sr, dist_to(succ, g), None, 1, lambda: 'solved again: %r' % ((succ, g, sr),))
    rec.state(repr(c))


def fresh(s):
    return s


def build(ck):
    ck.rule = 'all small weighted graphs x heuristics x weights; plan executed and compared with exact shortest paths'
    costs = (0, 1, 3)
    ck.scope = ('4 states x 2 actions per state x costs {1,3} (all), costs {0,1,3} thorough; all 5-state DAGs with edge '
                'costs {absent,1,3}; all 4-state DAGs with costs {absent,0,3,5,9}; 4 heuristics; weights 1,2,3')
    c2 = (1, 3) if not THOROUGH else (0, 1, 3)
    n2 = (4 * len(c2)) ** 2
    ck.run([(i, c2, False) for i in range(n2)], block4, '4-state graphs', timeout=600, chunk=1)
    ec = (None, 1, 3)
    ck.run([((a, b, c), ec) for a in ec for b in ec for c in ec] if not THOROUGH else
           [((a, b, c), (None, 0, 1, 4)) for a in (None, 0, 1, 4) for b in (None, 0, 1, 4) for c in (None, 0, 1, 4)],
           block_dag, '5-state DAGs', timeout=900, chunk=1)
    wc = (None, 0, 3, 5, 9) if not THOROUGH else (None, 0, 1, 3, 5, 9)
    ck.run([(x, wc) for x in wc], block_weights, 'weights on 4-state DAGs', timeout=900, chunk=1)
    misc = []
    base = [(((1, 1), (2, 5)), ((2, 1), (0, 0)), ((2, 0),)), (((1, 2), (1, 1)), ((0, 1), (2, 2)), ((0, 1), (1, 1))),
            (((0, 0),), ((2, 1),), ((1, 1),)), (((1, 0.5), (2, 0.25)), ((2, 0),), ())]
    for su in base:
        for goals in ((2,), (1, 2), (0,), (), (0, 1, 2), (1,)):
            for src in range(3):
                for names in ([0, 1, 2], ['a', 'b', 'c'], [(0, 0), (0, 1), (1, 0)], [frozenset('x'), frozenset(), frozenset('y')]):
                    for acts in ([0, 1], ['up', 'down'], [(0,), (1,)]):
                        misc.append((su, goals, src, names, acts))
    ck.run(misc, block_misc, 'names, goals, re-solving')
    ck.sample({'graph': base[0], 'goals': (2,), 'from': 0})
