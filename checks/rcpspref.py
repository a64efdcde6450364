"""Reference of the resource constrained project scheduling problem and of the serial schedule generation scheme.

An instance is a dict: tasks (ids 1..n+2, 1 = source, n+2 = sink), succ {task: [tasks]}, modes {task: {mode: {'duration': d, resource: amount}}},
res {resource: amount or [amount per date]}, nr [non renewable resources], horizon."""
import itertools


def avail(inst, r, t):
    q = inst['res'][r]
    return q if isinstance(q, int) else q[t]


def preds(inst):
    p = {t: set() for t in inst['tasks']}
    for a, bs in inst['succ'].items():
        for b in bs:
            p[b].add(a)
    return p


def usage(inst, modes, starts, r, t):
    return sum(inst['modes'][k][modes[k]][r] for k, s in starts.items() if s <= t < s + inst['modes'][k][modes[k]]['duration'])


def total(inst, modes, r):
    return sum(inst['modes'][k][modes[k]][r] for k in inst['tasks'])


def sgs(inst, order, modes, H, done=(), given=None, now=0):
    """{task: start} or None when the tasks do not fit: first eligible task of the order at its earliest feasible date"""
    pr = preds(inst)
    starts = {}
    todo = [t for t in order if t not in done]
    given = given or {}
    while todo:
        k = next(t for t in todo if not any(p in todo for p in pr[t]))
        d = inst['modes'][k][modes[k]]['duration']
        t = max([given.get(k, now)] + [starts[p] + inst['modes'][p][modes[p]]['duration'] for p in pr[k] if p in starts])
        while d and not all(u < H and all(usage(inst, modes, starts, r, u) + inst['modes'][k][modes[k]][r] <= avail(inst, r, u)
                                          for r in inst['res'] if r not in inst['nr']) for u in range(t, t + d)):
            t += 1
            if t > H:
                return None
        starts[k] = t
        todo.remove(k)
    return starts


def feasible(inst, modes, starts):
    dur = {k: inst['modes'][k][modes[k]]['duration'] for k in inst['tasks']}
    for a, bs in inst['succ'].items():
        for b in bs:
            if starts[b] < starts[a] + dur[a]:
                return False
    for r in inst['nr']:
        if total(inst, modes, r) > avail(inst, r, 0):
            return False
    end = max(starts[k] + dur[k] for k in inst['tasks'])
    return all(usage(inst, modes, starts, r, t) <= avail(inst, r, t) for r in inst['res'] if r not in inst['nr'] for t in range(end))


def optimum(inst, modes, H):
    """smallest makespan over all start dates, by depth first search in topological order; None when there is none before H"""
    real = inst['tasks'][1:-1]
    best = None
    pr = preds(inst)
    order = []
    while len(order) < len(inst['tasks']):
        order += [t for t in inst['tasks'] if t not in order and pr[t] <= set(order)]
    if any(total(inst, modes, r) > avail(inst, r, 0) for r in inst['nr']):
        return None
    dur = {k: inst['modes'][k][modes[k]]['duration'] for k in inst['tasks']}

    def rec(i, starts):
        nonlocal best
        if i == len(order):
            end = max(starts[k] + dur[k] for k in real)
            if best is None or end < best:
                best = end
            return
        k = order[i]
        lo = max([0] + [starts[p] + dur[p] for p in pr[k]])
        if k in (inst['tasks'][0], inst['tasks'][-1]):
            starts[k] = lo
            rec(i + 1, starts)
            del starts[k]
            return
        for s in range(lo, (H if best is None else best - 1) - dur[k] + 1):
            if all(usage(inst, modes, starts, r, t) + inst['modes'][k][modes[k]][r] <= avail(inst, r, t)
                   for r in inst['res'] if r not in inst['nr'] for t in range(s, s + dur[k])):
                starts[k] = s
                rec(i + 1, starts)
                del starts[k]
    rec(0, {})
    return best


def instance(edges, durs, needs, res, nr=(), more_modes=None):
    """edges over 0..n-1; durs[i], needs[i] = {resource: amount}; more_modes {i: {mode: (duration, {resource: amount})}}"""
    n = len(durs)
    tasks = list(range(1, n + 3))
    succ = {1: list(range(2, n + 2)) + ([] if n else [2])}
    for i in range(n):
        succ[i + 2] = [b + 2 for a, b in edges if a == i] + [n + 2]
    succ[n + 2] = []
    zero = {r: 0 for r in res}
    modes = {1: {1: dict(zero, duration=0)}, n + 2: {1: dict(zero, duration=0)}}
    for i in range(n):
        modes[i + 2] = {1: dict(zero, duration=durs[i], **needs[i])}
        for m, (d, q) in (more_modes or {}).get(i, {}).items():
            modes[i + 2][m] = dict(zero, duration=d, **q)
    modes = {t: modes[t] for t in tasks}
    return {'tasks': tasks, 'succ': succ, 'modes': modes, 'res': dict(res), 'nr': list(nr)}


def dags(n):
    pairs = list(itertools.combinations(range(n), 2))
    return [tuple(e for e, b in zip(pairs, bits) if b) for bits in itertools.product((0, 1), repeat=len(pairs))]
