"""C09: parallel domains, on all schedules of processes and client threads up to a bound."""
from mc import sched
sched.install()
import itertools

from mc import nondet
from mc.core import expect, expect_eq, Fail, THOROUGH

import skdecide.domains as sd
from skdecide.domains import PipeParallelDomain, ShmParallelDomain
from skdecide.builders.solver import ParallelSolver


class S:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is S and o.v == self.v

    def __repr__(self):
        return 'S%d' % self.v


class P:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return type(o) is P and (o.a, o.b) == (self.a, self.b)

    def __repr__(self):
        return 'P%d,%d' % (self.a, self.b)


class X:
    """cannot be sent to another process"""

    def __reduce_ex__(self, p):
        raise TypeError('cannot be sent')

    def __deepcopy__(self, memo):
        raise TypeError('cannot be sent')

    def __repr__(self):
        return 'X'


class Proxy:
    def copy(self):
        return Proxy()

    def register(self):
        return [(S, 2), (P, 2), (bool, 1), (int, 1)]

    def initialize(self, t):
        mp = sd.mp
        if t is S:
            return mp.Value('i', 0)
        if t is P:
            return [mp.Value('i', 0), mp.Value('i', 0)]
        return mp.Value('i', 0)

    def encode(self, value, shm):
        if type(value) is S:
            shm.value = value.v
        elif type(value) is P:
            shm[0].value, shm[1].value = value.a, value.b
        else:
            shm.value = int(value)

    def decode(self, t, shm):
        if t is S:
            return S(shm.value)
        if t is P:
            return P(shm[0].value, shm[1].value)
        return t(shm.value)


METHODS = {}


class Dom:
    """Plain class: the parallel domain only forwards calls."""

    def __init__(self, log):
        self._log = log

    def _rec(self, name, args):
        self._log.append((sched.CUR.cur.name, name, repr(args)))

    def get_initial_state(self):
        self._rec('get_initial_state', ())
        return S(7)

    def get_next_state(self, m, a):
        self._rec('get_next_state', (m, a))
        return P(m.v + a.a, a.b)

    def is_goal(self, s):
        self._rec('is_goal', (s,))
        raise ValueError('no goal %r' % s)

    def render(self, s):
        self._rec('render', (s,))
        return None

    def get_observation(self, a, b):
        self._rec('get_observation', (a, b))
        return P(a.v, 1), P(b.v, 2)

    def custom(self, p):
        self._rec('custom', (p,))
        return S(p.a), P(p.b, p.a)

    def is_terminal(self, s):
        self._rec('is_terminal', (s,))
        return s.v % 2 == 1

    def three(self, a):
        self._rec('three', (a,))
        return S(a.v), S(a.v + 1), S(a.v + 2)

    def __getattr__(self, name):  # every other public method
        if name.startswith('_'):
            raise AttributeError(name)

        def f(*args):
            self._rec(name, args)
            return S(len(name))
        return f


def lam0(domain, s):
    domain._rec(0, (s,))
    return S(s.v + 100)


def lam1(domain, p, s):
    domain._rec(1, (p, s))
    return P(p.b + s.v, p.a)


# kind -> (how to launch, name in the log, args, expected result)
def job(kind, n):
    """The nth job (distinct arguments)."""
    s, s2, p = S(10 + n), S(20 + n), P(30 + n, 40 + n)
    if kind == 'init':
        return 'get_initial_state', (), S(7)
    if kind == 'next':
        return 'get_next_state', (s, p), P(s.v + p.a, p.b)
    if kind == 'goal!':
        return 'is_goal', (s,), None
    if kind == 'none':
        return 'render', (s,), None
    if kind == 'pair':
        return 'get_observation', (s, s2), [P(s.v, 1), P(s2.v, 2)]
    if kind == 'custom':
        return 'custom', (p,), [S(p.a), P(p.b, p.a)]
    if kind == 'lam0':
        return 0, (s,), S(s.v + 100)
    if kind == 'lam1':
        return 1, (p, s), P(p.b + s.v, p.a)
    if kind == 'bool':
        return 'is_terminal', (s,), s.v % 2 == 1
    if kind == 'three!':  # shared memory only: more results of a type than registers
        return 'three', (s,), None
    if kind == 'args!':  # shared memory only: more arguments of a type than registers
        return 'get_transition_value', (s, s2, s), 'LAUNCH FAILS'
    if kind == 'unsendable':
        return 'is_terminal', (X(),), 'LAUNCH FAILS'
    raise KeyError(kind)


def launch(pd, kind, n, i):
    name, args, want = job(kind, n)
    if isinstance(name, int):
        return pd.call(i, name, *args), name, args, want
    return getattr(pd, name)(*args, i=i), name, args, want


def norm(r):
    return list(r) if isinstance(r, (tuple, list)) else r


class World:
    def __init__(self, kind, nb, ipc=False):
        self.kind, self.nb, self.ipc = kind, nb, ipc
        self.log, self.map, self.jobs, self.busy = [], {}, [], {}

    def make(self):
        log = self.log
        fac = lambda: Dom(log)
        if self.kind == 'pipe':
            return PipeParallelDomain(fac, [lam0, lam1], self.nb, self.ipc)
        return ShmParallelDomain(fac, Proxy(), [lam0, lam1], self.nb, self.ipc)

    def start(self, pd, kind, n, i, who):
        mi, name, args, want = launch(pd, kind, n, i)
        if want == 'LAUNCH FAILS':
            expect(mi is None, lambda: 'launching a job whose arguments cannot be sent returned %r' % (mi,))
            return None
        expect(isinstance(mi, int) and 0 <= mi < self.nb, lambda: 'launch of %r returned %r' % (name, mi))
        if i is not None:
            expect_eq(mi, i, 'the job %r was launched on another domain than the one asked for' % (name,))
        expect(mi not in self.busy, lambda: 'domain %r was given to %r while it is serving %r' % (mi, (who, kind), self.busy[mi]))
        self.busy[mi] = (who, kind)
        self.jobs.append((mi, name, repr(args)))
        return mi, name, args, want

    def fetch(self, pd, h):
        mi, name, args, want = h
        # from now on the domain may be given to somebody else as soon as get_result is done with it
        r = norm(self._get(pd, mi))
        expect(r == want and type(r) is type(want), lambda: 'job %r%r on domain %r: got %r, expected %r' % (name, args, mi, r, want))

    def _get(self, pd, mi):
        w = self.busy.pop(mi)
        return pd.get_result(mi)

    def check_log(self):
        got = sorted((repr(b), c) for a, b, c in self.log)
        want = sorted((repr(b), c) for a, b, c in self.jobs)
        expect_eq(got, want, 'jobs executed in the processes')
        back = {}
        left = list(self.log)
        for mi, name, args in self.jobs:
            ps = [e for e in left if e[1] == name and e[2] == args]
            procs = {e[0] for e in ps}
            if len(procs) == 1:
                p = procs.pop()
                expect(back.setdefault(mi, p) == p, lambda: 'a job launched on domain %r was run by %s, others by %s' % (mi, p, back[mi]))
        expect(len(set(back.values())) == len(back), lambda: 'two domain numbers share a process: %r' % back)


def run(rec, body, deviations, what, max_runs=None):
    """body(sched) -> (client functions, check function)"""
    outs = []
    box = {}

    def once():
        s = sched.Sched()
        clients, check = body(s)
        box['s'] = s
        ts = s.run(clients)
        for t in s.tasks:
            if t.exc is not None and t.client:
                raise t.exc
        check(ts)
        return s

    n = 0
    for (k, r), trace, _p in nondet.explore(once, deviations=deviations, max_runs=max_runs):
        n += 1
        s = box['s']
        rec.trans(s.points)
        if k == 'exc':
            if isinstance(r, (sched.Deadlock, sched.Livelock)):
                raise Fail('%s: %s [schedule %r]' % (what, r, trace), type(r).__name__)
            if isinstance(r, Fail):
                raise Fail('%s: %s [schedule %r]' % (what, r, trace), r.key)
            raise Fail('%s: %s: %s [schedule %r]' % (what, type(r).__name__, r, trace), 'exc') from r
        expect(k == 'ok', 'schedule too long')
        rec.trace()
        rec.state()
    if nondet.explore.capped:
        rec.count('capped')
    rec.outcome((what, n))


def ended(s):
    for t in s.tasks:
        if not t.client:
            expect(t.done, lambda: '%s is still running after close()' % t.name)
            expect(t.exc is None, lambda: '%s died: %r' % (t.name, t.exc))


# ---------------------------------------------------------------------------------------------------- 1 client
def seq_case(rec, c):
    """Jobs one after the other (mode 'now') or overlapping (results fetched first-launched-first or last-first)."""
    kind, nb, jobs, targets, mode, dev, how = c

    def body(s):
        w = World(kind, nb)

        def main():
            pd = w.make()
            if how == 'with':
                cm = pd
                cm.__enter__()
            elif how == 'launch':
                pd._launch_processes()
            hs = []
            for n, (j, i) in enumerate(zip(jobs, targets)):
                h = w.start(pd, j, n, i, 'main')
                if h is None:
                    continue
                if mode == 'now':
                    w.fetch(pd, h)
                else:
                    hs.append(h)
            for h in (hs if mode == 'fifo' else reversed(hs)):
                w.fetch(pd, h)
            if how == 'with':
                cm.__exit__(None, None, None)
            else:
                pd.close()

        def check(ts):
            w.check_log()
            ended(s)

        return [main], check

    run(rec, body, dev, repr(c))


# ------------------------------------------------------------------------------------------------- 2-3 clients
def multi_case(rec, c):
    kind, nb, scripts, dev, ipc = c

    def body(s):
        w = World(kind, nb, ipc)

        def main():
            pd = w.make()
            pd._launch_processes()
            subs = []
            for k, sc in enumerate(scripts):
                def cl(sc=sc, k=k):
                    for n, (j, i) in enumerate(sc):
                        h = w.start(pd, j, 3 * k + n, i, 'client%d' % k)
                        if h is not None:
                            w.fetch(pd, h)
                subs.append(s.spawn('sub%d' % k, cl, True))
            s.point('clients', lambda: all(t.done for t in subs))
            pd.close()

        def check(ts):
            w.check_log()
            ended(s)

        return [main], check

    run(rec, body, dev, repr(c))


# ------------------------------------------------------------------------------------------------- notifications
def ipc_case(rec, c):
    """With notifications (what the C++ solvers wait for): one per job, '0' or the error message, and once '0' is there the
    result can be fetched; the client waits for the notification."""
    kind, nb, jobs, dev = c

    def body(s):
        w = World(kind, nb, True)
        conns = []

        def main():
            pd = w.make()
            pd._launch_processes()
            conns.extend(pd.get_ipc_connections())
            expect(len(set(conns)) == nb and all(isinstance(x, str) and x.startswith('ipc://') for x in conns),
                   lambda: 'notification addresses %r' % conns)
            seen = 0
            for n, j in enumerate(jobs):
                h = w.start(pd, j, n, n % nb, 'main')
                s.point('notification', lambda: len(s.trace) > seen)
                m = s.trace[seen]
                seen += 1
                expect_eq(m[1], conns[h[0]], 'the notification of the job came through another address')
                if j == 'goal!':
                    expect(m[2] == b'no goal S%d' % (10 + n), lambda: 'failure notified as %r' % (m[2],))
                    w.busy.pop(h[0])
                    if kind == 'shm':
                        pd.get_result(h[0])
                    else:
                        break  # (the C++ client gives up here)
                else:
                    expect_eq(m[2], b'0', 'success notification')
                    w.fetch(pd, h)
            expect_eq(len(s.trace), seen, 'number of notifications')
            pd.close()

        def check(ts):
            w.check_log()
            ended(s)

        return [main], check

    run(rec, body, dev, repr(c))


PUBLIC = [('reset', 0), ('get_initial_state_distribution', 0), ('get_initial_state', 0), ('get_observation_space', 0), ('is_observation', 1),
          ('get_observation_distribution', 2), ('get_observation', 2), ('get_enabled_events', 1), ('is_enabled_event', 2),
          ('get_action_space', 0), ('is_action', 1), ('get_applicable_actions', 1), ('is_applicable_action', 2), ('step', 1),
          ('sample', 2), ('get_next_state_distribution', 2), ('get_next_state', 2), ('get_transition_value', 3),
          ('is_transition_value_dependent_on_next_state', 0), ('get_goals', 0), ('is_goal', 1), ('is_terminal', 1), ('check_value', 1),
          ('render', 1), ('anything_else', 2)]


class Echo:
    """Every method is there and echoes its name and arguments."""

    def __init__(self, log):
        self._log = log

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def f(*args):
            self._log.append((name, repr(args)))
            return S(len(name))
        return f


def names_case(rec, c):
    """Each public method reaches the method of the same name, with the same arguments in the same order, on the domain asked for."""
    kind, name, k, i, how = c
    args = (S(1), P(2, 3), S(4))[:k]

    def body(s):
        log = []

        def main():
            fac = lambda: Echo(log)
            pd = PipeParallelDomain(fac, [], 2) if kind == 'pipe' else ShmParallelDomain(fac, Proxy(), [], 2)
            with pd:
                expect_eq(pd.get_parallel_capacity(), 2, 'parallel capacity')
                if how == 'kw':
                    mi = getattr(pd, name)(*args, i=i)
                elif how == 'pos':
                    mi = getattr(pd, name)(*args, i)
                else:
                    mi = pd.launch(i, name, *args)
                expect_eq(mi, 0 if i is None else i, 'domain')
                r = pd.get_result(mi)
                expect(r == S(len(name)), lambda: 'got %r' % (r,))
                # again, the first available one
                expect_eq(pd.reset(), 0, 'first available domain')
                expect_eq(pd.reset(), 1, 'next available domain')
                pd.get_result(1), pd.get_result(0)

        def check(ts):
            expect_eq(log[0], (name, repr(args)), 'call received by the domain')
            ended(s)

        return [main], check

    run(rec, body, 0, repr(c))


def life_case(rec, c):
    """Lazy start, closing, starting again."""
    kind, nb, first, second, dev = c

    def body(s):
        w = World(kind, nb)

        def main():
            pd = w.make()
            expect(not any(not t.client for t in s.tasks) , 'a process was started by the constructor')
            for rnd, jobs in enumerate((first, second)):
                for n, j in enumerate(jobs):
                    h = w.start(pd, j, 3 * rnd + n, None, 'main')
                    if h is not None:
                        w.fetch(pd, h)
                expect_eq(sum(1 for t in s.tasks if not t.client and not t.done), nb, 'number of processes')
                pd.close()
                expect_eq(sum(1 for t in s.tasks if not t.client and not t.done), 0, 'number of processes after close()')

        def check(ts):
            expect_eq(sorted((repr(b), c_) for a, b, c_ in w.log), sorted((repr(b), c_) for a, b, c_ in w.jobs), 'jobs executed')
            ended(s)

        return [main], check

    run(rec, body, dev, repr(c))


def solver_case(rec, c):
    """ParallelSolver: the same call gives the same result, with or without parallelism."""
    mode, jobs, dev = c

    def body(s):
        log = []

        def main():
            from unittest import mock
            fac = lambda: Dom(log)
            kw = {} if mode == 'seq' else dict(parallel=True, shared_memory_proxy=Proxy() if mode == 'shm' else None)
            sol = ParallelSolver(fac, **kw)
            sol._lambdas = [lam0, lam1]
            # (the number of processes defaults to the number of processors, fixed when the class was defined)
            d = [x.__init__.__defaults__ for x in (PipeParallelDomain, ShmParallelDomain)]
            for x in (PipeParallelDomain, ShmParallelDomain):
                x.__init__.__defaults__ = tuple(2 if isinstance(v, int) and v is not False and v is not True else v
                                                for v in x.__init__.__defaults__)
            try:
                sol._initialize()
            finally:
                for x, y in zip((PipeParallelDomain, ShmParallelDomain), d):
                    x.__init__.__defaults__ = y
            for n, j in enumerate(jobs):
                name, args, want = job(j, n)
                r = norm(sol.call_domain_method(name, *args))
                expect(r == want, lambda: 'call of %r%r through the solver: %r, expected %r' % (name, args, r, want))
            sol.close()
            sol.close()

        def check(ts):
            expect_eq([(b, c_) for a, b, c_ in log], [(job(j, n)[0], repr(job(j, n)[1])) for n, j in enumerate(jobs)], 'calls received')
            ended(s)

        return [main], check

    run(rec, body, dev, repr(c))


def build(ck):
    ck.rule = ('real parallel domain classes on simulated processes, pipes, shared memory and locks; all schedules with at most the given '
               'number of deviations from the non-preemptive default')
    J = ['init', 'next', 'goal!', 'none', 'pair', 'custom', 'lam0', 'lam1', 'bool', 'unsendable']
    T = THOROUGH
    ck.scope = '1-2 domains, 1-3 client threads, 1-3 jobs each out of %d kinds, deviations <= %d' % (len(J), 3 if T else 2)
    ck.run([(k, n, a, i, h) for k in ('pipe', 'shm') for n, a in PUBLIC for i in (None, 0, 1) for h in ('kw', 'pos', 'launch')
            if not (n == 'anything_else' and h == 'pos')],
           names_case, 'public methods')
    cases = []
    for k in ('pipe', 'shm'):
        for nb in (1, 2):
            tg = (None, 0) if nb == 1 else (None, 0, 1)
            for j1, j2 in itertools.product(J, J):
                for t1, t2 in itertools.product(tg, tg):
                    cases.append((k, nb, (j1, j2), (t1, t2), 'now', 0, 'lazy'))
                    if nb == 2 and 'unsendable' not in (j1, j2) and (t1, t2) in ((None, None), (0, 1), (1, 0), (0, None), (1, None), (None, 1)):
                        for m in ('fifo', 'lifo'):
                            cases.append((k, nb, (j1, j2), (t1, t2), m, 0, 'with'))
            for j in (J if k == 'pipe' else J + ['three!', 'args!']):
                cases.append((k, nb, (j,), (None,), 'now', 2, 'with'))
    for k in ('pipe', 'shm'):
        for js in itertools.product(('next', 'goal!', 'pair', 'unsendable', 'lam0'), repeat=3):
            cases.append((k, 2, js, (None,) * 3, 'now', 0, 'launch'))
            cases.append((k, 1, js, (None,) * 3, 'now', 0, 'launch'))
        if k == 'shm':
            for js in itertools.product(('three!', 'args!', 'pair', 'goal!', 'next'), repeat=3):
                cases.append((k, 1, js, (None,) * 3, 'now', 0, 'launch'))
        for js in itertools.product(('next', 'goal!', 'pair', 'none', 'lam0'), repeat=2):
            for m in ('now', 'lifo'):
                cases.append((k, 2, js, (None, None), m, 1, 'launch'))
    ck.run(cases, seq_case, 'one client', chunk=4, timeout=120)
    d = 3 if T else 2
    cases = []
    for k in ('pipe', 'shm'):
        two = ['next', 'goal!', 'pair'] if not T else ['next', 'goal!', 'pair', 'none', 'lam1', 'custom']
        for a, b in itertools.product(two, two):
            cases.append((k, 1, (((a, None),), ((b, None),)), d - 1, False))
            cases.append((k, 2, (((a, None),), ((b, None),)), d if (a, b) == ('next', 'pair') or T else d - 1, False))
        cases.append((k, 2, ((('next', 0), ('pair', 0)), (('pair', 1), ('goal!', 1))), 1, False))
        cases.append((k, 2, ((('next', None), ('pair', None)), (('lam0', None),)), 1, False))
        cases.append((k, 1, ((('next', None), ('goal!', None)), (('custom', None), ('lam0', None))), 1, False))
        cases.append((k, 2, ((('next', None),), (('pair', None),), (('lam1', None),)), 1, False))
        cases.append((k, 2, ((('unsendable', None), ('next', None)), (('pair', None),)), 1, False))
    ck.run(cases, multi_case, 'client threads', chunk=1, timeout=600)
    ck.run([(k, nb, js, 1) for k in ('pipe', 'shm') for nb in (1, 2) for js in
            itertools.product(('next', 'goal!', 'none', 'lam0'), repeat=2)] +
           [(k, nb, js, 0) for k in ('pipe', 'shm') for nb in (1, 2) for js in itertools.product(('next', 'goal!', 'pair', 'lam1'), repeat=3)],
           ipc_case, 'notifications', chunk=2, timeout=120)
    ck.run([(k, nb, a, b, 1) for k in ('pipe', 'shm') for nb in (1, 2) for a in (('next',), ('pair', 'goal!'), ('goal!', 'lam0'))
            for b in (('custom',), ('next', 'none'))], life_case, 'life cycle', chunk=1, timeout=120)
    ck.run([(m, js, 0) for m in ('seq', 'pipe', 'shm') for js in itertools.product(('init', 'next', 'pair', 'none', 'bool', 'custom'), repeat=2)],
           solver_case, 'parallel solver', chunk=2)
    ck.sample({'domains': 2, 'clients': [['next'], ['pair']], 'deviations': d})
