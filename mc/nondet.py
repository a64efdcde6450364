"""Ownership of randomness: every entry point of `random` and `numpy.random` that the code under test can use is
replaced (before the code under test is imported) by a dispatcher.  Outside an exploration the real function is called;
inside `explore(...)` each call becomes a *choice point* and all its outcomes are enumerated by depth first
re-execution (stateless model checking over environment answers)."""
import itertools
import random as _random

import numpy as _np

_active = None  # the running Chooser
unordered = False  # random.sample: one outcome per subset instead of one per order (for callers which make sets of it)


class Divergence(Exception):
    pass


class TooManyChoices(Exception):
    pass


class Chooser:
    def __init__(self, prefix, floats=(0.0, 0.5, 0.999999), max_points=10000):
        self.prefix = prefix
        self.trace = []  # (choice, arity)
        self.floats = floats
        self.max_points = max_points
        self.prob = 1.0

    def choose(self, n, probs=None):
        if n <= 0:
            raise IndexError('choice from an empty set')
        c = self._choose(n)
        self.prob *= (1.0 / n) if probs is None else probs[c]
        return c

    def _choose(self, n):
        if n == 1:
            return 0
        i = len(self.trace)
        if i >= self.max_points:
            raise TooManyChoices(i)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Divergence('choice %d out of range %d at %d' % (c, n, i))
        self.trace.append((c, n))
        return c


def explore(fn, floats=(0.0, 0.5, 0.999999), max_runs=None, max_points=10000, deviations=None):
    """Yield (result, trace, probability) for every assignment of outcomes to the choice points met by fn(). `deviations` bounds
    the number of choices that depart from the first alternative (None: no bound). Stops after max_runs runs (the
    caller is told through explore.capped)."""
    global _active
    explore.capped = False
    stack = [[]]
    runs = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, floats, max_points)
        old, _active = _active, ch
        try:
            res = ('ok', fn())
        except Divergence:
            raise
        except TooManyChoices:
            res = ('horizon', None)
        except Exception as e:  # the caller decides
            res = ('exc', e)
        finally:
            _active = old
        runs += 1
        yield res, [c for c, _ in ch.trace], ch.prob
        if max_runs is not None and runs >= max_runs:
            explore.capped = bool(stack) or any(c + 1 < n for c, n in ch.trace[len(prefix):])
            return
        base = [c for c, _ in ch.trace]
        dev0 = sum(1 for c in prefix if c)
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            n = ch.trace[i][1]
            if deviations is not None and dev0 + 1 > deviations:
                continue
            for alt in range(n - 1, 0, -1):
                stack.append(base[:i] + [alt])


def replay(fn, choices, floats=(0.0, 0.5, 0.999999)):
    global _active
    ch = Chooser(choices, floats)
    old, _active = _active, ch
    try:
        return fn()
    finally:
        _active = old


def choose(n):
    return _active.choose(n)


def active():
    return _active is not None


# ------------------------------------------------------------------------------------------------ python's random
_real = {}


def _wrap(mod, name, alt):
    real = getattr(mod, name)
    _real[(mod.__name__, name)] = real

    def f(*a, **k):
        if _active is None:
            return real(*a, **k)
        return alt(*a, **k)
    f.__name__ = name
    f.__wrapped_random__ = real
    setattr(mod, name, f)


def _c_random(*size):
    return _active.floats[_active.choose(len(_active.floats))]


def _c_choice(seq, *_a, **_k):
    return seq[_active.choose(len(seq))]


def _c_choices(population, weights=None, *, cum_weights=None, k=1):
    population = list(population)
    if cum_weights is not None:
        weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
    if weights is None:
        idx = list(range(len(population)))
    else:
        if len(weights) != len(population):
            raise ValueError('The number of weights does not match the population')
        idx = [i for i, w in enumerate(weights) if w > 0]
        if not idx:
            raise ValueError('Total of weights must be greater than zero')
    tot = float(sum(weights)) if weights is not None else 0
    pr = None if weights is None else [weights[i] / tot for i in idx]
    return [population[idx[_active.choose(len(idx), pr)]] for _ in range(k)]


def _c_randint(a, b):
    return a + _active.choose(b - a + 1)


def _c_randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    if not len(r):
        raise ValueError('empty range')
    return r[_active.choose(len(r))]


def _c_sample(population, k, **_kw):
    if not hasattr(population, '__getitem__') or isinstance(population, dict):
        raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
    pool = list(population)
    if k > len(pool):
        raise ValueError('Sample larger than population')
    if unordered:
        combos = list(itertools.combinations(pool, k))
        return list(combos[_active.choose(len(combos))])
    out = []
    for _ in range(k):
        out.append(pool.pop(_active.choose(len(pool))))
    return out


def _c_shuffle(x, *_):
    pool = list(x)
    out = []
    while pool:
        out.append(pool.pop(_active.choose(len(pool))))
    x[:] = out


def _c_uniform(a, b):
    return a + (b - a) * _c_random()


# ------------------------------------------------------------------------------------------------ numpy.random
def _n_choice(a, size=None, replace=True, p=None):
    pool = list(range(a)) if isinstance(a, (int, _np.integer)) else list(a)
    if not pool:
        raise ValueError('a must be non-empty')
    idx = list(range(len(pool))) if p is None else [i for i, w in enumerate(p) if w > 0]
    if size is None:
        return pool[idx[_active.choose(len(idx), None if p is None else [p[i] for i in idx])]]
    n = int(_np.prod(size))
    out = []
    for _ in range(n):
        tot = 1.0 if p is None else sum(p[i] for i in idx)
        j = _active.choose(len(idx), None if p is None else [p[i] / tot for i in idx])
        out.append(pool[idx[j]])
        if not replace:
            idx.pop(j)
    return _np.array(out).reshape(size)


def _n_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if high <= low:
        raise ValueError('low >= high')
    if size is None:
        return int(low) + _active.choose(int(high - low))
    n = int(_np.prod(size))
    return _np.array([int(low) + _active.choose(int(high - low)) for _ in range(n)]).reshape(size)


def _n_random(size=None):
    if size is None:
        return _c_random()
    n = int(_np.prod(size))
    return _np.array([_c_random() for _ in range(n)]).reshape(size)


def _n_permutation(x):
    pool = list(range(x)) if isinstance(x, (int, _np.integer)) else list(x)
    _c_shuffle(pool)
    return _np.array(pool)


def _n_multinomial(n, pvals, size=None):
    out = _np.zeros(len(pvals), int)
    idx = [i for i, w in enumerate(pvals) if w > 0]
    for _ in range(n):
        out[idx[_active.choose(len(idx), [pvals[i] for i in idx])]] += 1
    return out if size is None else out.reshape((1, -1))


def _n_binomial(n, p, size=None):
    def one():
        if p <= 0:
            return 0
        if p >= 1:
            return n
        return _active.choose(n + 1)
    return one() if size is None else _np.array([one() for _ in range(int(_np.prod(size)))]).reshape(size)


def _n_rand(*shape):
    return _n_random(shape if shape else None)


def install():
    if getattr(_random, '_mc_installed', False):
        return
    _random._mc_installed = True
    for name, alt in [('random', _c_random), ('choice', _c_choice), ('choices', _c_choices), ('randint', _c_randint),
                      ('randrange', _c_randrange), ('sample', _c_sample), ('shuffle', _c_shuffle),
                      ('uniform', _c_uniform)]:
        _wrap(_random, name, alt)
    for name, alt in [('choice', _n_choice), ('randint', _n_randint), ('random', _n_random), ('rand', _n_rand),
                      ('random_sample', _n_random), ('permutation', _n_permutation), ('shuffle', _c_shuffle),
                      ('multinomial', _n_multinomial), ('binomial', _n_binomial),
                      ('uniform', lambda low=0.0, high=1.0, size=None: low + (high - low) * _n_random(size))]:
        _wrap(_np.random, name, alt)
