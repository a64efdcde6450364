"""C11: the values of the transitions of a scheduling domain add up to the makespan and cost of the executed schedule."""
import itertools
from mc.core import expect, THOROUGH
from mc import nondet
from checks import schedref as R

OBJS = (['MAKESPAN'], ['COST'], ['MAKESPAN', 'COST'], [])


def close(a, b):
    return abs(a - b) < 1e-9


def walk(rec, kind, spec, label, pauses=1):
    dom = R.make(kind, spec)
    spec = dom.spec
    ref = R.Ref(spec)
    sto = 'Stochastic' in kind
    todo = [(ref.initial(), dom.get_initial_state(), (), 0.)]
    seen = {ref.initial()}
    while todo:
        st, s, path, total = todo.pop(0)
        rec.state()
        if ref.terminal(st):
            continue
        for a in ref.actions(st):
            act = R.action(*a)
            want = ref.next(st, *a)

            def where():
                return '%s: after %s, then %s' % (label, list(path), a)
            if sto:
                nexts = R.match_dist(ref, dom.get_next_state_distribution(s, act).get_values(), want, where)
            else:
                s2 = dom.get_next_state(s, act)
                (st2, _), = want.items()
                R.expect_state(ref, s2, st2, where)
                nexts = {st2: s2}
                o = dom.sample(s, act)
                R.expect_state(ref, o.observation, st2, where)
                expect(close(o.value.cost, ref.cost(st, a, st2)), lambda: '%s: sampled cost %r, expected %r' % (
                    where(), o.value.cost, ref.cost(st, a, st2)))
                expect(bool(o.termination) == ref.terminal(st2), lambda: '%s: sampled termination %r' % (where(), o.termination))
            for st2, s2 in nexts.items():
                rec.trans()
                v = dom.get_transition_value(s, act, s2)
                c = ref.cost(st, a, st2)
                expect(close(v.cost, c) and close(v.reward, -c), lambda: '%s: cost %r and reward %r, expected cost %r' % (
                    where(), v.cost, v.reward, c))
                if ref.goal(st2):
                    rec.trace()
                    # independently of the transitions: what the finished schedule costs
                    f = whole(spec, st2, path + (a,)) if not st2[1] else None
                    expect(f is None or close(total + v.cost, f), lambda: '%s: total cost %r, the schedule costs %r' % (
                        where(), total + v.cost, f))
                if st2 not in seen:
                    seen.add(st2)
                    if sum(len(r[6]) for r in st2[2]) <= pauses:
                        todo.append((st2, s2, path + (a,), total + v.cost))


def whole(spec, st, path):
    """Makespan and cost of a complete schedule, from its task records."""
    out = 0.
    if 'MAKESPAN' in spec['objectives']:
        out += max([r[5] for r in st[2] if r[5] is not None] + [0])
        if out != st[0]:
            out = st[0]     # time passed idly after the last task: elapsed time counts
    if 'COST' in spec['objectives']:
        for t, r in zip(spec['tasks'], st[2]):
            if r[0] != 'complete':
                continue
            out += spec['mode_costs'][t][r[1]]
            for k in spec['types']:
                if spec['renew'][k]:
                    out += spec['unit_costs'][k] * sum(R.need(spec, t, r[1], k, i) for i in range(r[2]))
            out += sum(n for _, n in r[9])
    return out


def costs(rec, case):
    kind, objs, edges, durs, uc, nr = case
    ids = (1, 2) if kind != 'MultiModeRCPSPWithCost' else (1, 2, 3)
    if kind in ('SingleModeRCPSP', 'SingleModeRCPSPCalendar', 'SingleModeRCPSP_Stochastic_Durations'):
        modes = {t: {1: {'r1': 1, 'n1': 0}} for t in ids}
        dur = {t: {1: d} for t, d in zip(ids, durs)}
    else:
        modes = {1: {1: {'r1': 1, 'n1': 1}, 2: {'r1': 2, 'n1': 0}}, 2: {1: {'r1': 1, 'n1': 2}}, 3: {1: {'r1': 1, 'n1': 0}}}
        dur = {1: {1: durs[0], 2: durs[0] + 1}, 2: {1: durs[1]}, 3: {1: durs[2]}}
        modes, dur = {t: modes[t] for t in ids}, {t: dur[t] for t in ids}
        if len(edges) != 1:
            # two units at first, then one: what the tasks use changes while they run
            modes[1][2] = {'r1': [2, 1, 2, 1], 'n1': [0, 0, 0, 0]}
            modes[2][1] = {'r1': [1, 2, 1, 1], 'n1': [2, 2, 2, 2]}
    if 'Stochastic' in kind:
        dur = {t: {m: [(d, 0.25), (d + 1, 0.75)] for m, d in ms.items()} for t, ms in dur.items()}
    succ = {t: [] for t in ids}
    for a, b in edges:
        if b < len(ids):
            succ[ids[a]].append(ids[b])
    spec = {'tasks': ids, 'succ': succ, 'types': ['r1', 'n1'], 'res': {'r1': (2 if 'Calendar' not in kind and 'Preemptive' not in kind else
                                                                                     [2, 2, 3] if edges else [2, 1, 0, 2]), 'n1': 4}, 'renew': {'r1': True, 'n1': not nr},
            'modes': modes, 'dur': dur, 'horizon': 4, 'objectives': objs,
            'mode_costs': {t: {m: 10. * t + m for m in modes[t]} for t in ids}, 'unit_costs': {'r1': uc, 'n1': 0.5 if not nr else 1.},
            'preempt': {1: kind.startswith('Preemptive')}, 'returned': {1: len(edges) % 2 == 0}}
    if kind in ('SingleModeRCPSP', 'SingleModeRCPSPCalendar', 'MultiModeRCPSPCalendar', 'SingleModeRCPSP_Stochastic_Durations',
                'MultiModeRCPSPCalendar_Stochastic_Durations'):
        # no costs in these families
        spec['mode_costs'] = {t: {m: 0. for m in modes[t]} for t in ids}
        spec['unit_costs'] = {r: 0. for r in spec['res']}
    walk(rec, kind, spec, '%s %r' % (kind, case[1:]))


def cases():
    for kind in ('MultiModeRCPSPWithCost', 'PreemptiveRCPSP', 'PreemptiveStochasticRCPSP', 'SingleModeRCPSP', 'SingleModeRCPSPCalendar',
                 'MultiModeRCPSPCalendar', 'SingleModeRCPSP_Stochastic_Durations', 'MultiModeRCPSPCalendar_Stochastic_Durations'):
        rich = kind in ('MultiModeRCPSPWithCost', 'PreemptiveRCPSP', 'PreemptiveStochasticRCPSP')
        for objs in OBJS:
            for edges in ((), ((0, 1),), ((0, 2), (1, 2))):
                for durs in (((1, 2, 1), (2, 1, 0), (0, 1, 1)) if not THOROUGH else itertools.product((0, 1, 2), repeat=3)):
                    for uc in ((2., 0.) if rich else (0.,)):
                        for nr in ((True, False) if kind not in ('SingleModeRCPSP', 'SingleModeRCPSPCalendar', 'SingleModeRCPSP_Stochastic_Durations') else (False,)):
                            if kind == 'PreemptiveStochasticRCPSP' and not THOROUGH and (uc == 0. or durs[0] == 2):
                                continue
                            yield (kind, objs, edges, tuple(durs), uc, nr)


def build(ck):
    ck.rule = ('every transition between reachable states of every bounded instance: its value against the elapsed time, mode costs and '
               'resource use of the reference simulator; every complete schedule: the sum of its values against its makespan and cost')
    ck.scope = ('8 families of scheduling domains x 4 sets of objectives x 3 precedence graphs x 3 duration profiles x unit costs x renewability; '
                '2-3 tasks, horizon 4')
    ck.run(cases(), costs, 'transition values', timeout=120)
    ck.sample({'case': repr(next(iter(cases())))})
