"""C16: spaces wrapping OpenAI Gym spaces contain, enumerate, sample and convert exactly the declared elements."""
import enum, itertools, json
from dataclasses import dataclass
from typing import NamedTuple, Any
import numpy as np
import gym.spaces as gs
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from skdecide.hub.space import gym as sp


class Rng:
    """Owned random generator of a Gym space: every draw is a choice point."""

    def integers(self, low, high=None, size=None, dtype=None, **k):
        lo, hi = (0, low) if high is None else (low, high)
        one = lambda: int(lo) + nondet.choose(int(hi) - int(lo))
        if size is None:
            return one()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        return np.array([one() for _ in range(int(np.prod(shape)))], dtype=dtype or np.int64).reshape(shape)

    def random(self, size=None):
        grid = [i / 6 for i in range(6)]
        if size is None:
            return grid[nondet.choose(6)]
        return np.array([grid[nondet.choose(6)] for _ in range(int(np.prod(size)))]).reshape(size)

    def uniform(self, low=0., high=1., size=None):
        lo, hi = np.broadcast_arrays(np.asarray(low, float), np.asarray(high, float))
        out = np.array([lo.flat[i] + (hi.flat[i] - lo.flat[i]) * (0., .5, .9)[nondet.choose(3)] for i in range(lo.size)])
        return out.reshape(lo.shape if size is None else size)

    def choice(self, a, size=None, **k):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        return a[nondet.choose(len(a))]

    def exponential(self, scale=1., size=None):
        n = int(np.prod(size)) if size is not None else 1
        v = np.array([(0., 1.)[nondet.choose(2)] for _ in range(n)])
        return v.reshape(size) if size is not None else v[0]

    def normal(self, loc=0., scale=1., size=None):
        n = int(np.prod(size)) if size is not None else 1
        v = np.array([(-1., 0., 1.)[nondet.choose(3)] for _ in range(n)])
        return v.reshape(size) if size is not None else v[0]


def own(g):
    g._np_random = Rng()
    subs = getattr(g, 'spaces', None)
    for s in (subs.values() if hasattr(subs, 'values') else subs or ()):
        own(s)


def key(v):
    """comparable form of a Gym value"""
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, tuple(v.ravel().tolist()))
    if isinstance(v, np.generic):
        return v.item()
    if hasattr(v, 'items'):
        return tuple(sorted((k, key(x)) for k, x in v.items()))
    if isinstance(v, (tuple, list)):
        return tuple(key(x) for x in v)
    return v


def samples(space):
    own(space.unwrapped())
    got = {}
    for (kind, r), tr, p in nondet.explore(space.sample):
        expect(kind == 'ok', lambda: 'sample() raised %r' % (r,))
        got.setdefault(repr(r) if not isinstance(r, np.ndarray) else repr(key(r)), [r, 0.])[1] += p
    return list(got.values())


def check_enumerable(rec, space, elements, outsiders, label):
    """elements: all distinct and in order"""
    n = len(elements)
    expect(isinstance(space.unwrapped(), gs.Discrete) and space.unwrapped().n == n, label + ': unwrapped space %r' % (space.unwrapped(),))
    for _ in (0, 1):
        expect_eq(list(space.get_elements()), elements, label + ': elements')
    for e in elements:
        expect(space.contains(e) is True or space.contains(e) == True, '%s: does not contain %r' % (label, e))
        expect(e in space, '%s: %r not in' % (label, e))
    for o in outsiders:
        expect(not space.contains(o), '%s: contains %r' % (label, o))
    got = samples(space)
    expect(len(got) == n and all(abs(p - 1 / n) < 1e-9 and any(r is e or r == e for e in elements) for r, p in got),
           lambda: '%s: samples %r' % (label, got))
    for k in range(4):
        for idx in itertools.product(range(n), repeat=k):
            rec.trace()
            es = [elements[i] for i in idx]
            expect_eq(list(space.to_unwrapped(es)), list(idx), '%s: to_unwrapped(%r)' % (label, es))
            expect_eq(list(space.from_unwrapped(list(idx))), es, '%s: from_unwrapped(%r)' % (label, idx))
            expect_eq(list(space.from_unwrapped([np.int64(i) for i in idx])), es, '%s: from_unwrapped of numpy integers %r' % (label, idx))
            js = space.to_jsonable(es)
            expect_eq(list(space.from_jsonable(js)), es, '%s: JSON round trip of %r' % (label, es))
            if isinstance(space, sp.EnumSpace):
                expect_eq(list(space.from_jsonable(json.loads(json.dumps(js)))), es, '%s: JSON round trip of %r' % (label, es))
    rec.state()


class Other(enum.Enum):
    a = 0
    b = 1


VALUES = [0, 1, 'x', (1, 2), None]


def enums(rec, c):
    n, vals = c
    names = ['a', 'b', 'c', 'd'][:n]
    E = enum.Enum('E', list(zip(names, vals)))
    members = list(E)
    check_enumerable(rec, sp.EnumSpace(E), members, [0, 1, 'a', None, Other.a, Other.b, (), names[0]] + [v for v in vals], 'EnumSpace(%r)' % (list(zip(names, vals)),))


class Pt(NamedTuple):
    x: int
    y: int


@dataclass(frozen=True)
class Act:
    u: int
    v: float = 0


POOL = [0, 'zero', (0, 1), Pt(1, 2), Act(1, 2), None, 2.5, frozenset([1])]


def lists(rec, c):
    els, form = c
    els = list(els)
    src = list(els)
    arg = {'list': src, 'tuple': tuple(src), 'gen': (e for e in src), 'dict': dict.fromkeys(src)}[form]
    space = sp.ListSpace(arg)
    src.append('later')
    src.reverse()
    if form == 'list':
        arg = None
    check_enumerable(rec, space, els, [o for o in POOL + ['later', (0,), Pt(2, 1), Act(2, 1)] if o not in els], 'ListSpace(%r as %s)' % (els, form))


@dataclass(frozen=True)
class Rec2:
    p: Any
    q: Any


def fields():
    """(name, gym space, members, non members) of one field"""
    f32, i64 = np.float32, np.int64
    yield 'disc', lambda: gs.Discrete(3), [0, 1, 2, np.int64(1)], [-1, 3, 'x', 0.5]
    yield 'box1', lambda: gs.Box(low=f32(-1), high=f32(1), shape=(1,), dtype=f32), [np.array([0.], f32), np.array([-1.], f32), np.array([1.], f32)], [np.array([1.5], f32), np.array([0., 0.], f32)]
    yield 'box0', lambda: gs.Box(low=f32(-1), high=f32(1), shape=(), dtype=f32), [0., 1., np.array(.5, f32)], [1.5, -2.]
    yield 'boxi', lambda: gs.Box(low=0, high=5, shape=(2,), dtype=i64), [np.array([0, 5]), np.array([2, 3])], [np.array([0, 6]), np.array([-1, 0]), np.array([1])]
    yield 'mdisc', lambda: gs.MultiDiscrete([2, 3]), [np.array([1, 2]), np.array([0, 0])], [np.array([2, 0]), np.array([0, 3]), np.array([-1, 0])]
    yield 'mbin', lambda: gs.MultiBinary(2), [np.array([0, 1], np.int8), np.array([1, 1], np.int8)], [np.array([0, 2], np.int8)]


def datas(rec, c):
    n1, n2, style = c
    fs = {f[0]: f for f in fields()}
    f1, f2 = fs[n1], fs[n2]
    desc = {'p': f1[1](), 'q': f2[1]()}
    space = sp.DataSpace(Rec2, desc if style == 'dict' else list(desc.items()))
    label = 'DataSpace(p: %s, q: %s)' % (desc['p'], desc['q'])
    un = space.unwrapped()
    expect(isinstance(un, gs.Dict) and set(un.spaces) == {'p', 'q'} and un.spaces['p'] == f1[1]() and un.spaces['q'] == f2[1](), label + ': unwrapped ' + repr(un))
    for (a, ina), (b, inb) in itertools.product([(v, True) for v in f1[2]] + [(v, False) for v in f1[3]], [(v, True) for v in f2[2]] + [(v, False) for v in f2[3]]):
        rec.state()
        x = Rec2(a, b)
        try:
            got = bool(space.contains(x))
        except (ValueError, TypeError, AttributeError):
            # values which are no element of a field at all (wrong type) need not be answered
            expect(not (ina and inb), lambda: '%s: contains(%r) raised' % (label, x))
            continue
        expect_eq(got, ina and inb, lambda: '%s: contains(%r)' % (label, x))
        if ina and inb:
            u = list(space.to_unwrapped([x, x]))
            expect(len(u) == 2 and all(set(d) == {'p', 'q'} and key(d['p']) == key(a) and key(d['q']) == key(b) for d in u), lambda: '%s: to_unwrapped(%r): %r' % (label, x, u))
            r = list(space.from_unwrapped(u))
            expect(len(r) == 2 and all(isinstance(y, Rec2) and key(y.p) == key(a) and key(y.q) == key(b) for y in r), lambda: '%s: from_unwrapped(%r): %r' % (label, u, r))
            rec.trans()
            if not (isinstance(a, np.generic) or isinstance(b, np.generic)):
                for many in ([x], [x, x]):
                    js = json.loads(json.dumps(space.to_jsonable(many)))
                    r = list(space.from_jsonable(js))
                    expect(len(r) == len(many) and all(isinstance(y, Rec2) and np.allclose(y.p, a) and np.allclose(y.q, b) for y in r),
                           lambda: '%s: JSON round trip of %r gives %r' % (label, many, r))
    got = samples(space)
    for r, p in got:
        expect(isinstance(r, Rec2) and space.contains(r), lambda: '%s: sample %r is not in the space' % (label, r))
    if (n1, n2) == ('disc', 'disc'):
        expect(sorted((r.p, r.q) for r, p in got) == sorted(itertools.product(range(3), repeat=2)), label + ': samples %r' % got)
    rec.trace(len(got))


def wrapped(rec, c):
    """plain wrappers: same answers as the Gym space they announce"""
    name = c
    f32 = np.float32
    mk = {
        'box': (lambda: sp.BoxSpace(-1., 1., (2,)), gs.Box(-1., 1., (2,), f32)),
        'box arrays': (lambda: sp.BoxSpace(np.array([0., -1.], f32), np.array([1., 2.], f32)), gs.Box(np.array([0., -1.], f32), np.array([1., 2.], f32), None, f32)),
        'box int': (lambda: sp.BoxSpace(0, 3, (2,), np.int64), gs.Box(0, 3, (2,), np.int64)),
        'box kw': (lambda: sp.BoxSpace(low=0, high=3, shape=(1,), dtype=np.int32), gs.Box(0, 3, (1,), np.int32)),
        'discrete': (lambda: sp.DiscreteSpace(3), gs.Discrete(3)),
        'multidiscrete': (lambda: sp.MultiDiscreteSpace([2, 3]), gs.MultiDiscrete([2, 3])),
        'multibinary': (lambda: sp.MultiBinarySpace(2), gs.MultiBinary(2)),
        'tuple': (lambda: sp.TupleSpace([gs.Discrete(2), gs.Discrete(3)]), gs.Tuple([gs.Discrete(2), gs.Discrete(3)])),
        'dict': (lambda: sp.DictSpace({'a': gs.Discrete(2), 'b': gs.Discrete(3)}), gs.Dict({'a': gs.Discrete(2), 'b': gs.Discrete(3)})),
        'dict kwargs': (lambda: sp.DictSpace(a=gs.Discrete(2), b=gs.Discrete(3)), gs.Dict(a=gs.Discrete(2), b=gs.Discrete(3))),
        'gym': (lambda: sp.GymSpace(gs.Discrete(4)), gs.Discrete(4)),
    }
    f, ref = mk[name]
    space = f()
    expect(type(space.unwrapped()) is type(ref) and space.unwrapped() == ref, '%s: wraps %r instead of %r' % (name, space.unwrapped(), ref))
    expect_eq(space.shape, ref.shape, name + ': shape')
    expect_eq(space.dtype, ref.dtype, name + ': dtype')
    cands = [0, 1, 2, 3, 4, -1, np.int64(2), None, 'a', (0, 1), (1, 2), (2, 0), (1, 3), {'a': 0, 'b': 2}, {'a': 2, 'b': 0}, {'a': 1}, {'a': 1, 'b': 1, 'c': 0}]
    cands += [np.array(v, dt) for v in ([0, 0], [1, 2], [1, 1], [2, 3], [-1, 0], [3, 3], [4, 0], [0.5, -0.5], [1.5, 0]) for dt in (f32, np.int64, np.int8)]
    cands += [np.array([1], np.int32), np.array([4], np.int32)]
    for x in cands:
        rec.state()
        try:
            w = bool(ref.contains(x))
        except Exception:
            continue
        expect_eq(bool(space.contains(x)), w, lambda: '%s: contains(%r)' % (name, x))
        if w:
            for many in ([x], [x, x]):
                expect(list(map(key, space.to_unwrapped(many))) == list(map(key, many)), name + ': to_unwrapped')
                expect(list(map(key, space.from_unwrapped(many))) == list(map(key, many)), name + ': from_unwrapped')
                try:
                    j = ref.to_jsonable(many)
                except Exception:
                    continue
                expect(key(space.to_jsonable(many)) == key(j), name + ': to_jsonable')
                expect(key(space.from_jsonable(j)) == key(ref.from_jsonable(j)), name + ': from_jsonable')
    got = samples(space)
    for r, p in got:
        expect(ref.contains(r), lambda: '%s: sample %r is not in the space' % (name, r))
    n = {'discrete': 3, 'multidiscrete': 6, 'multibinary': 4, 'tuple': 6, 'dict': 6, 'dict kwargs': 6, 'gym': 4}.get(name)
    if n:
        expect_eq(len(got), n, lambda: '%s: number of different samples %r' % (name, got))
    rec.trace(len(got))


def build(ck):
    ck.rule = ('every element (and non element) of every small space: membership, enumeration, conversion to and from Gym and JSON of all sequences up to length 3, '
               'and all outcomes of sampling (owned generator)')
    ck.scope = 'enumerations of 1-4 members x value patterns; lists of 1-3 (4) elements of 8 kinds, 4 containers; data classes of 2 fields over 6 Gym spaces; 11 plain wrappers'
    ck.run([(n, v) for n in (1, 2, 3) for v in itertools.permutations(VALUES, n)] + [(4, tuple(VALUES[:4])), (4, (3, 2, 1, 0))], enums, 'EnumSpace', chunk=4)
    ck.run([(els, f) for n in ((1, 2, 3) if not THOROUGH else (1, 2, 3, 4)) for els in itertools.permutations(POOL, n) for f in ('list', 'tuple', 'gen', 'dict')],
           lists, 'ListSpace', chunk=16)
    names = [f[0] for f in fields()]
    ck.run([(a, b, s) for a in names for b in names for s in ('dict', 'list')], datas, 'DataSpace', chunk=2)
    ck.run(['box', 'box arrays', 'box int', 'box kw', 'discrete', 'multidiscrete', 'multibinary', 'tuple', 'dict', 'dict kwargs', 'gym'], wrapped, 'Gym space wrappers', chunk=1)
    ck.sample({'list space': list(map(repr, POOL[:3]))})
