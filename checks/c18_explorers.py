"""C18: exploring a domain builds exactly its reachable graph, and the graph behaves as the domain."""
import itertools
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from checks.graphs import GraphDom, ListSpace
from skdecide import GoalMDPDomain, DiscreteDistribution, TransitionValue
from skdecide.hub.solver.graph_explorer.DFSExploration import DFSExploration as DetDFS
from skdecide.hub.solver.graph_explorer.FullSpaceExploration import FullSpaceExploration
from skdecide.hub.solver.graph_explorer.DFS_Uncertain_Exploration import DFSExploration as UncDFS
from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain, GraphDomainUncertain

NAMES = ['s0', ('s', 1), 's2', frozenset([3]), 's4', 5, ('s', 'six'), 's7', -8, 's9']  # not comparable with each other
ACTS = ['go', ('x', 1), 2, 'a3', 'a4', -5, 'a6']


def ref_det(succ, goals, init):
    seen, todo, edges = {init}, [init], {}
    while todo:
        s = todo.pop()
        for i, (t, c) in enumerate(succ[s]):
            edges[s, i] = (t, c)
            if t not in seen:
                seen.add(t)
                if t not in goals:
                    todo.append(t)
    return seen, edges


def det_graphs(n, costs, block):
    """all graphs of n states with up to 2 actions; the costs cycle through `costs`"""
    opts = [()] + [(t,) for t in range(n)] + [(t, u) for t in range(n) for u in range(n)]
    for k, tg in enumerate(itertools.product(opts, repeat=n)):
        if k % 16 == block:
            yield [[(t, costs[(s + 2 * t + i + k) % len(costs)]) for i, t in enumerate(o)] for s, o in enumerate(tg)]


def det(rec, c):
    n, block, cls = c
    for succ in det_graphs(n, (1, 2.5, 0, 3), block):
        for goals in ((), (n - 1,), (0,), (1, n - 1)):
            d = GraphDom(succ, goals, 0, NAMES[:n], ACTS)
            for init in (None, 0, n - 1):
                nodes, edges = ref_det(succ, goals, init or 0)
                [rec.state() for _ in nodes]
                rec.trans(len(edges))
                ex = cls(d)
                g = ex.build_graph_domain() if init is None else ex.build_graph_domain(init_state=NAMES[init]) if cls is not DetDFS else \
                    ex.build_graph_domain(init_state=NAMES[init], verbose=False)
                at = lambda: '%s on %r, goals %r, from %r' % (cls.__name__, succ, goals, init)
                compare_det(g, d, succ, goals, nodes, edges, at)


def compare_det(g, d, succ, goals, nodes, edges, at, part=False):
    got = {(NAMES.index(s), ACTS.index(a)): (NAMES.index(t), g.next_state_attributes[s][a]['cost']) for s, m in g.next_state_map.items() for a, t in m.items()}
    if part:
        expect(all(edges.get(k) == v for k, v in got.items()), lambda: '%s: transitions %r, expected some of %r' % (at(), got, edges))
    else:
        expect_eq({NAMES.index(s) for s in g.next_state_map}, nodes, lambda: at() + ': states')
        expect_eq(got, edges, lambda: at() + ': transitions')
    for s in g.next_state_map:
        i = NAMES.index(s)
        expect_eq(bool(g.is_goal(s)), i in goals, lambda: '%s: is_goal(%r)' % (at(), s))
        expect_eq(bool(g.is_terminal(s)), i in goals, lambda: '%s: is_terminal(%r)' % (at(), s))
        app = g.get_applicable_actions(s)
        want = [ACTS[j] for j in range(len(ACTS)) if (i, j) in edges]
        if not part:
            expect_eq(list(app.get_elements()), want, lambda: '%s: applicable actions of %r' % (at(), s))
        for a in list(app.get_elements()):
            expect(app.contains(a) and a in app, lambda: '%s: applicable action %r' % (at(), a))
            t, cost = edges[i, ACTS.index(a)]
            expect_eq(g.get_next_state(s, a), NAMES[t], lambda: '%s: next state of %r' % (at(), (s, a)))
            v = g.get_transition_value(s, a, NAMES[t])
            expect_eq((v.cost, v.reward), (cost, -cost), lambda: '%s: value of %r' % (at(), (s, a)))
            out = g.sample(s, a)
            expect((out.observation, out.value.cost, bool(out.termination)) == (NAMES[t], cost, t in goals), lambda: '%s: sample of %r: %r' % (at(), (s, a), out))
        expect(not app.contains('other'), lambda: at() + ': other actions')


def limits(rec, c):
    """with limits, the graph is a part of the true one, and complete when no limit is exceeded"""
    n, block, cls = c
    for k, succ in enumerate(det_graphs(n, (1, 2), block)):
        if k % 3:
            continue
        for goals in ((n - 1,), (1, n - 1)):
            d = GraphDom(succ, goals, 0, NAMES[:n], ACTS)
            nodes, edges = ref_det(succ, goals, 0)
            paths = sum(1 for t, _ in edges.values() if t in goals)
            for kw in ({'max_path': 0}, {'max_path': 1}, {'max_path': 100}, {'max_nodes': 1}, {'max_nodes': 2}, {'max_edges': 1}, {'max_edges': 3},
                       {'max_path': 100, 'max_nodes': 100, 'max_edges': 100}):
                rec.trace()
                ex = cls(d, **kw)
                g = ex.build_graph_domain(verbose=False) if cls is DetDFS else ex.build_graph_domain()
                at = lambda: '%s(%r) on %r, goals %r' % (cls.__name__, kw, succ, goals)
                full = paths <= kw.get('max_path', 99) and len(nodes) <= kw.get('max_nodes', 99) and len(edges) <= kw.get('max_edges', 99) or not paths
                compare_det(g, d, succ, goals, nodes, edges, at, part=not full)
                ne = sum(len(m) for m in g.next_state_map.values())
                npth = sum(1 for m in g.next_state_map.values() for t in m.values() if NAMES.index(t) in goals)
                if 'max_path' in kw:
                    expect(npth <= kw['max_path'] + 2, lambda: at() + ': %d goal transitions explored' % npth)
                # the other limits only apply once a goal was found: nothing is explored beyond the state in which both hold
                if len(kw) == 1 and not full and 'max_path' not in kw:
                    expect(not stopped_late(g, kw, goals), lambda: at() + ': explored %d states, %d transitions' % (len(g.next_state_map), ne))


def shapes():
    """larger graphs: chains (with shortcuts), stars, trees, with goals met early"""
    for n in (5, 8, 10):
        yield n, [[(s + 1, 1)] if s < n - 1 else [] for s in range(n)]
        yield n, [[(n - 1, 2), (s + 1, 1)] if s < n - 1 else [] for s in range(n)]
        yield n, [[(s + 1, 1), (n - 1, 3)] if s < n - 2 else [(0, 1)] for s in range(n)]
        yield n, [[(max(s - 1, 0), 1), (min(s + 1, n - 1), 2), (min(s + 2, n - 1), 2.5)] for s in range(n)]
        yield n, [[(t, 1 + t) for t in (2 * s + 1, 2 * s + 2) if t < n] for s in range(n)]
        yield n, [[(t, 1 + t) for t in (2 * s + 2, 2 * s + 1, s) if t < n] for s in range(n)]
    for k in (3, 5, 6, 7):
        yield k + 2, [[(t, t) for t in range(1, k + 1)]] + [[(k + 1, 1), (0, 2)] for _ in range(k)] + [[]]
        yield k + 2, [[(t, t) for t in range(k, 0, -1)]] + [[(0, 2), (k + 1, 1)] for _ in range(k)] + [[(1, 1)]]
        yield k + 1, [[(t, 1) for t in range(1, k + 1)] for _ in range(k + 1)]


def wide(rec, c):
    cls, i = c
    n, succ = list(shapes())[i]
    for goals in ((), (n - 1,), (1,), (1, n - 1), (2, 3)):
        d = GraphDom(succ, goals, 0, NAMES[:n], ACTS)
        nodes, edges = ref_det(succ, goals, 0)
        paths = sum(1 for t, _ in edges.values() if t in goals)
        for kw in [{}] + [{'max_nodes': k} for k in range(1, n + 1)] + [{'max_edges': k} for k in range(1, 2 * n)] + [{'max_path': k} for k in range(0, 2 * n, 2)]:
            rec.trace()
            ex = cls(d, **kw)
            g = ex.build_graph_domain(verbose=False) if cls is DetDFS else ex.build_graph_domain()
            at = lambda: '%s(%r) on %r, goals %r' % (cls.__name__, kw, succ, goals)
            full = paths <= kw.get('max_path', 99) and len(nodes) <= kw.get('max_nodes', 99) and len(edges) <= kw.get('max_edges', 99) or not paths
            compare_det(g, d, succ, goals, nodes, edges, at, part=not full)
            if not full and 'max_path' not in kw:
                expect(not stopped_late(g, kw, goals), lambda: at() + ': explored %d states' % len(g.next_state_map))
            npth = sum(1 for m in g.next_state_map.values() for t in m.values() if NAMES.index(t) in goals)
            if 'max_path' in kw:
                expect(npth <= kw['max_path'] + max(len(x) for x in succ), lambda: at() + ': %d goal transitions explored' % npth)
        [rec.state() for _ in nodes]
        rec.trans(len(edges))


def stopped_late(g, kw, goals):
    """remove the last expanded state (dicts keep the order): the limit must not have been exceeded before"""
    exp = [s for s in g.next_state_map if g.next_state_map[s]]
    for last in exp:
        m = {s: t for s, t in g.next_state_map.items() if s != last}
        seen = set(m) & ({NAMES[0]} | {t for x in m.values() for t in x.values()}) | {NAMES[0]}
        edges = sum(len(x) for x in m.values())
        paths = sum(1 for x in m.values() for t in x.values() if NAMES.index(t) in goals)
        if not (paths >= 1 and (len(seen) > kw.get('max_nodes', 99) or edges > kw.get('max_edges', 99))):
            return False
    return bool(exp)


def extractor(rec, c):
    for succ in det_graphs(3, (1, 2), c):
        d = GraphDom(succ, (2,), 0, NAMES[:3], ACTS)
        g = DetDFS(d).build_graph_domain(transition_extractor=lambda s, a, t: {'cost': ('c', s, a, t), 'w': 1}, verbose=False)
        nodes, edges = ref_det(succ, (2,), 0)
        for (s, i), (t, _) in edges.items():
            expect_eq(g.next_state_attributes[NAMES[s]][ACTS[i]], {'cost': ('c', NAMES[s], ACTS[i], NAMES[t]), 'w': 1}, 'transition extractor')
        f = FullSpaceExploration(d).build_graph_domain()
        for (s, i), (t, co) in edges.items():
            expect_eq(f.next_state_attributes[NAMES[s]][ACTS[i]], {'cost': co, 'reward': -co}, 'attributes of FullSpaceExploration')
        [rec.state() for _ in nodes]


def graph_domain(rec, c):
    """GraphDomain on its own: attributes, targets, merging"""
    n, block = c
    gs = list(det_graphs(2, (1, 2, 3), block))
    for s1, s2 in itertools.product(gs, gs):
        def mk(succ, w):
            return ({NAMES[s]: {ACTS[i]: NAMES[t] for i, (t, _) in enumerate(e)} for s, e in enumerate(succ)},
                    {NAMES[s]: {ACTS[i]: {w: k, 'z': 9} for i, (_, k) in enumerate(e)} for s, e in enumerate(succ)})
        a = GraphDomain(*mk(s1, 'weight'), targets=[NAMES[1]])
        b = GraphDomain(*mk(s2, 'weight'), targets=[NAMES[0]])
        b.next_state_map[NAMES[2]] = {'go': NAMES[0]}
        b.next_state_attributes[NAMES[2]] = {'go': {'weight': 7}}
        m = a.merge(b)
        rec.state()
        for s in range(2):
            for i in range(2):
                src = s1[s][i] if i < len(s1[s]) else s2[s][i] if i < len(s2[s]) else None
                expect_eq(ACTS[i] in m.get_applicable_actions(NAMES[s]), src is not None, lambda: 'merge of %r and %r: action %d in %d' % (s1, s2, i, s))
                if src:
                    expect_eq(m.get_next_state(NAMES[s], ACTS[i]), NAMES[src[0]], lambda: 'merge of %r and %r' % (s1, s2))
                    expect_eq(m.get_transition_value(NAMES[s], ACTS[i], None).cost, src[1], lambda: 'merge of %r and %r: cost' % (s1, s2))
        expect_eq((m.get_next_state(NAMES[2], 'go'), m.get_transition_value(NAMES[2], 'go', NAMES[0]).cost), (NAMES[0], 7), 'merge: new state')
        expect_eq([bool(m.is_goal(x)) for x in NAMES[:2]], [False, True], 'merge: targets')
        m.set_nodes_target([NAMES[0]])
        expect_eq([bool(m.is_goal(x)) for x in NAMES[:2]] + [bool(m.is_terminal(x)) for x in NAMES[:2]], [True, False, True, False], 'set_nodes_target')
        m.set_sources_targets([NAMES[1]], [NAMES[2]])
        expect_eq([bool(m.is_goal(x)) for x in NAMES[:3]], [False, False, True], 'set_sources_targets')


# ---------------------------------------------------------------------------------------------------------- uncertain
class Unc(GoalMDPDomain):
    """trans[s][a]: list of (next, prob, cost)"""

    def __init__(self, trans, goals, terminal, init=0):
        self.trans, self.goals, self.terminal, self.init = trans, goals, terminal, init

    def _i(self, s):
        return NAMES.index(s)

    def _get_next_state_distribution(self, memory, action):
        return DiscreteDistribution([(NAMES[t], p) for t, p, c in self.trans[self._i(memory)][ACTS.index(action)]])

    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(cost=[c for t, p, c in self.trans[self._i(memory)][ACTS.index(action)] if t == self._i(next_state)][0])

    def _is_terminal(self, state):
        return self._i(state) in self.terminal

    def _get_action_space_(self):
        return ListSpace(ACTS)

    def _get_applicable_actions_from(self, memory):
        return ListSpace([ACTS[i] for i in range(len(self.trans[self._i(memory)]))])

    def _get_goals_(self):
        return ListSpace([NAMES[g] for g in self.goals])

    def _get_initial_state_(self):
        return NAMES[self.init]

    def _get_observation_space_(self):
        return ListSpace(NAMES)


def dists(n):
    for t in range(n):
        yield ((t, 1.),)
    for t, u in itertools.combinations(range(n), 2):
        yield ((t, .25), (u, .75))
        yield ((t, 1.), (u, 0.))
    yield ((0, .5), (1, .25), (0, .25))
    if n > 2:
        yield ((1, 1e-7), (0, 1 - 1e-7 - 1e-4), (n - 1, 1e-4))


def unc_tables(n, block):
    ds = list(dists(n))
    rows = [()] + [(d,) for d in ds] + [(d, e) for d in ds[::2] for e in ds[1::3]]
    k = 0
    for table in itertools.product(rows, repeat=n):
        k += 1
        if k % 64 == block:
            # the cost of a transition is that of its first occurrence
            yield [[[(t, p, 1 + (s + 2 * t + 3 * i) % 5) for t, p in d] for i, d in enumerate(row)] for s, row in enumerate(table)]


def ref_unc(trans, goals, terminal, init):
    seen, todo, edges = {init}, [init], {}
    while todo:
        s = todo.pop()
        if s in goals or s in terminal:
            continue
        for i, d in enumerate(trans[s]):
            edges.setdefault((s, i), {})
            for t, p, c in d:
                if p:
                    q = edges[s, i].get(t, (0, 0))[0]
                    edges[s, i][t] = (q + p, c)
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
    return seen, edges


def uncertain(rec, c):
    n, block, thin = c
    scores = [None, lambda s: 0, lambda s: (-len(str(s)), 1)]
    if n == 'wide':
        n, succ = list(shapes())[block]
        tables = [[[[(t, .75, 1 + (s + t) % 4), ((s + j) % n, .25, 2 + s)] if j % 3 < 2 and t != (s + j) % n else [(t, 1., co)] for j, (t, co) in enumerate(row)]
                   for s, row in enumerate(succ)]]
    else:
        tables = unc_tables(n, block)
    for k, trans in enumerate(tables):
        if k % thin:
            continue
        for goals, terminal in (((n - 1,), ()), ((n - 1,), (n - 1,)), ((n - 1,), (1,)), ((), (0,))):
            d = Unc(trans, goals, terminal)
            for sc in scores:
                for init in (None, 1):
                    nodes, edges = ref_unc(trans, goals, terminal, init or 0)
                    ex = UncDFS(d) if sc is None else UncDFS(d, score_function=sc, max_edges=1000, max_nodes=1000)
                    g = ex.build_graph_domain() if init is None else ex.build_graph_domain(init_state=NAMES[init])
                    [rec.state() for _ in nodes]
                    rec.trans(len(edges))
                    at = lambda: 'uncertain exploration of %r, goals %r, terminal %r, from %r' % (trans, goals, terminal, init)
                    got = {(NAMES.index(s), ACTS.index(a)): {NAMES.index(t): v for t, v in m.items()} for s, x in g.next_state_map.items() for a, m in x.items()}
                    expect_eq(got, edges, lambda: at() + ': transitions')
                    expect_eq({NAMES.index(s): (bool(v), bool(g.state_terminal[s])) for s, v in g.state_goal.items()},
                              {i: (i in goals, i in terminal) for i in nodes}, lambda: at() + ': goal and terminal states')
                    expect_eq(set(g.state_terminal), set(g.state_goal), lambda: at() + ': terminal states')
                    behave(rec, g, nodes, edges, goals, terminal, at)


def behave(rec, g, nodes, edges, goals, terminal, at):
    for i in nodes:
        s = NAMES[i]
        acts = [a for j, a in enumerate(ACTS) if (i, j) in edges]
        app = g.get_applicable_actions(s)
        expect_eq(list(app.get_elements()), acts, lambda: at() + ': applicable actions')
        expect_eq([app.contains(a) for a in ACTS], [a in acts for a in ACTS], lambda: at() + ': applicable actions')
        expect_eq(bool(g.is_goal(s)), i in goals, lambda: at() + ': is_goal')
        expect_eq(bool(g.is_terminal(s)), i in terminal or not acts, lambda: at() + ': is_terminal')
        for a in acts:
            e = edges[i, ACTS.index(a)]
            dist = {}
            for t, p in g.get_next_state_distribution(s, a).get_values():
                dist[t] = dist.get(t, 0) + p
            expect_eq(dist, {NAMES[t]: p for t, (p, _) in e.items()}, lambda: '%s: distribution of %r' % (at(), (s, a)))
            for t, (p, cost) in e.items():
                v = g.get_transition_value(s, a, NAMES[t])
                expect_eq((v.cost, v.reward), (cost, -cost), lambda: '%s: value of %r' % (at(), (s, a, t)))
            smp = {}
            for (kind, r), tr, p in nondet.explore(lambda: g.sample(s, a)):
                expect(kind == 'ok', lambda: '%s: sample raised %r' % (at(), r))
                k = (r.observation, r.value.cost, bool(r.termination))
                smp[k] = smp.get(k, 0) + p
            want = {(NAMES[t], cost, t in terminal or (t, 0) not in edges): p for t, (p, cost) in e.items()}
            expect(smp.keys() == want.keys() and all(abs(smp[k] - want[k]) < 1e-9 for k in want), lambda: '%s: samples of %r: %r instead of %r' % (at(), (s, a), smp, want))
    x = g.to_networkx()
    lab = {k: v['state'] for k, v in x.nodes(data=True)}
    expect_eq(sorted(NAMES.index(v) for v in lab.values()), sorted(nodes), lambda: at() + ': nodes of the networkx graph')
    got = {(NAMES.index(lab[u]), NAMES.index(lab[v])): (ACTS.index(w['action']), w['proba'], w['cost']) for u, v, w in x.edges(data=True)}
    expect_eq(set(got), {(i, t) for (i, j), e in edges.items() for t in e}, lambda: at() + ': edges of the networkx graph')
    for (i, t), (j, p, cost) in got.items():
        expect_eq((p, cost), edges[i, j].get(t), lambda: at() + ': attributes of the networkx graph')


def unc_limits(rec, c):
    n, block = c
    for k, trans in enumerate(unc_tables(n, block)):
        if k % 4:
            continue
        goals, terminal = (n - 1,), ()
        nodes, edges = ref_unc(trans, goals, terminal, 0)
        ne = sum(len(e) for e in edges.values())
        for kw in ({'max_nodes': 1}, {'max_nodes': 2}, {'max_edges': 1}, {'max_edges': 3}, {'max_nodes': len(nodes), 'max_edges': 99}):
            g = UncDFS(Unc(trans, goals, terminal), **kw).build_graph_domain()
            rec.trace()
            at = lambda: 'uncertain exploration (%r) of %r' % (kw, trans)
            got = {(NAMES.index(s), ACTS.index(a)): {NAMES.index(t): v for t, v in m.items()} for s, x in g.next_state_map.items() for a, m in x.items()}
            expect(all(edges.get(k2) == v for k2, v in got.items()), lambda: '%s: transitions %r, expected some of %r' % (at(), got, edges))
            for s in g.state_goal:
                expect_eq((bool(g.state_goal[s]), bool(g.state_terminal[s])), (NAMES.index(s) in goals, False), lambda: at() + ': goals')
            if 'max_nodes' in kw and kw['max_nodes'] >= len(nodes):
                expect_eq(got, edges, lambda: at() + ': transitions')
            expect(len(g.state_goal) <= kw.get('max_nodes', 99) + 6, lambda: at() + ': states')


def build(ck):
    ck.rule = 'every graph of the bounded families, every initial state, score function and limit: the explored graph equals the reachable one, and answers every query as the domain does'
    n3 = [(3, b) for b in range(16)]
    ck.scope = 'all deterministic graphs of 3 states with 0-2 actions x 4 goal sets; uncertain domains of 3 states (every third of all tables over 10 distributions); limits 1..100'
    ck.run([x + (cls,) for x in n3 for cls in (DetDFS, FullSpaceExploration)], det, 'deterministic exploration', chunk=1, timeout=200)
    ck.run([x + (cls,) for x in n3 for cls in (DetDFS, FullSpaceExploration)], limits, 'limited exploration', chunk=1, timeout=200)
    ck.run([(cls, i) for cls in (DetDFS, FullSpaceExploration) for i in range(len(list(shapes())))], wide, 'larger graphs', chunk=1, timeout=100)
    ck.run(list(range(16)), extractor, 'attributes', chunk=1)
    ck.run([(2, b) for b in range(16)], graph_domain, 'graph domains', chunk=1)
    ck.run([(2, b, 1) for b in range(64)] + [(3, b, 3 if not THOROUGH else 1) for b in range(64)] + [('wide', i, 1) for i in range(len(list(shapes())))], uncertain, 'uncertain exploration', chunk=1, timeout=300)
    ck.run([(3, b) for b in range(0, 64, 8 if not THOROUGH else 1)], unc_limits, 'limited uncertain exploration', chunk=1, timeout=200)
    ck.sample({'succ': [[[1, 1], [2, 0]], [[0, 1]], []]})
