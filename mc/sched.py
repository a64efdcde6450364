"""Controlled scheduler for code that uses (pathos') multiprocessing and pynng.

`install()` (before the code under test is imported) replaces `pathos.helpers.mp` and `pynng.Push0` by dispatchers. Inside a
`Sched.run(...)` their primitives are simulated: every process and client is a task (a real thread, but only the one holding the
baton runs), every operation on a shared object is a scheduling point, and which task runs next is a choice enumerated by
`nondet.explore`. Outside a run the real primitives are used. Processes get deep copies of their arguments (only the shared
primitives keep their identity) and everything sent through a pipe or stored in a managed list is copied, as in reality."""
import copy
import ctypes
import os
import threading
from multiprocessing.sharedctypes import typecode_to_type

from . import nondet

CUR = None  # the running Sched
SPIN = 16
LIVELOCK = 600


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class Livelock(Exception):
    pass


class Task:
    def __init__(self, s, name, fn):
        self.s, self.name, self.fn = s, name, fn
        self.sem = threading.Semaphore(0)
        self.ready = None
        self.done = False
        self.exc = None
        self.result = None
        self.reads = 0
        self.seen = -1
        self.client = False


class Sched:
    def __init__(self):
        self.tasks = []
        self.cur = None
        self.version = 0
        self.abort = False
        self.end = threading.Semaphore(0)
        self.failure = None
        self.points = 0
        self.switches = 0
        self.trace = []
        self.pipes = 0

    # ---------------------------------------------------------------------------------------------------- scheduling
    def spawn(self, name, fn, client=False):
        t = Task(self, name, fn)
        t.client = client
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _body(self, t):
        t.sem.acquire()
        try:
            if not self.abort:
                t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.exc = e
        t.done = True
        if self.abort:
            return
        self.version += 1
        try:
            self._dispatch(None)
        except Abort:
            pass

    def _enabled(self, t):
        if t.done:
            return False
        if t.ready is not None and not t.ready():
            return False
        return True

    def _spinning(self, t):
        return t.seen == self.version and t.reads >= SPIN

    def _dispatch(self, me):
        """Choose the next task; returns when `me` is scheduled again (me None: the task is over)."""
        if all(t.done for t in self.tasks if t.client):
            return self._stop(None, me)
        en = [t for t in self.tasks if self._enabled(t)]
        live = [t for t in en if not self._spinning(t)]
        if not en:
            return self._stop(Deadlock('deadlock: ' + self.describe()), me)
        if not live:
            if any(t.reads > LIVELOCK for t in en):
                return self._stop(Livelock('livelock: %s' % self.describe()), me)
            for t in en:  # only spinners: let each of them turn
                pass
            live = [min(en, key=lambda t: t.reads)]
        if me in live:
            live.remove(me)
            live.insert(0, me)
        self.points += 1
        try:
            n = live[nondet.choose(len(live))] if len(live) > 1 else live[0]
        except Exception as e:
            return self._stop(e, me)
        self.cur = n
        if n is me:
            return
        self.switches += 1
        n.sem.release()
        if me is not None:
            me.sem.acquire()
            if self.abort:
                raise Abort()

    def _stop(self, failure, me):
        self.failure = failure
        self.abort = True
        self.end.release()
        if me is not None:
            raise Abort()

    def describe(self):
        return ', '.join('%s %s' % (t.name, 'finished' if t.done else 'waits (%s)' % (getattr(t, 'what', '?'),)) for t in self.tasks)

    def point(self, what, ready=None, write=True):
        t = self.cur
        if self.abort:
            raise Abort()
        t.ready = ready
        t.what = what
        if write:
            t.reads = 0
        elif t.seen == self.version:
            t.reads += 1
        else:
            t.reads, t.seen = 1, self.version
        self._dispatch(t)
        t.ready = None
        if write:
            self.version += 1

    def run(self, clients, names=None):
        """Run the client functions (and the processes they start) to completion. Returns the clients' tasks."""
        global CUR
        old, CUR = CUR, self
        try:
            ts = [self.spawn(names[i] if names else 'client%d' % i, f, True) for i, f in enumerate(clients)]
            self.cur = None
            try:
                self._dispatch(None)
            except Abort:
                pass
            self.end.acquire()
        finally:
            self.abort = True
            for t in self.tasks:
                t.sem.release()
            for t in self.tasks:
                t.thread.join(5)
            CUR = old
        if self.failure is not None:
            raise self.failure
        return ts


def cp(x):
    """What arrives at the other end of a pipe."""
    return copy.deepcopy(x)


class Shared:
    def __deepcopy__(self, memo):
        return self


class Lock(Shared):
    recursive = False

    def __init__(self, *a):
        self.owner, self.n = None, 0

    def acquire(self, block=True, timeout=None):
        me = CUR.cur
        if self.recursive and self.owner is me:
            self.n += 1
            return True
        if not block or timeout is not None:
            CUR.point('try lock', write=False)
            if self.owner is not None:
                return False
        else:
            CUR.point('lock', lambda: self.owner is None, write=False)
        self.owner, self.n = me, 1
        return True

    def release(self):
        if self.owner is not CUR.cur and self.recursive:
            raise AssertionError('attempt to release recursive lock not owned by thread')
        self.n -= 1
        if self.n <= 0:
            self.owner = None  # (not counted as progress: spinners take and release locks)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def owned(self):
        return self.owner is CUR.cur


class RLock(Lock):
    recursive = True


class Condition(Shared):
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        assert self.lock.owned(), 'must acquire() condition before using wait()'
        w = [False]
        self.waiters.append(w)
        n, self.lock.n, self.lock.owner = self.lock.n, 0, None
        me = CUR.cur
        CUR.point('condition', lambda: self.lock.owner is None and (w[0] or timeout is not None))
        self.lock.owner, self.lock.n = me, n
        if w in self.waiters:
            self.waiters.remove(w)
        return w[0]

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            ok = self.wait(timeout)
            r = predicate()
            if timeout is not None and not ok:
                break
        return r

    def notify(self, n=1):
        assert self.lock.owned(), 'lock is not owned'
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]
        CUR.version += 1

    def notify_all(self):
        self.notify(len(self.waiters))


class Semaphore(Shared):
    def __init__(self, value=1):
        self.v = value

    def acquire(self, block=True, timeout=None):
        CUR.point('semaphore', (lambda: self.v > 0) if block and timeout is None else None)
        if self.v <= 0:
            return False
        self.v -= 1
        return True

    def release(self):
        CUR.point('semaphore release')
        self.v += 1

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Event(Shared):
    def __init__(self):
        self.f = False

    def is_set(self):
        CUR.point('event?', write=False)
        return self.f

    def set(self):
        CUR.point('event')
        self.f = True

    def clear(self):
        CUR.point('event clear')
        self.f = False

    def wait(self, timeout=None):
        CUR.point('event wait', None if timeout is not None else (lambda: self.f))
        return self.f


class Value(Shared):
    def __init__(self, typecode, *args, lock=True):
        self.__dict__['raw'] = typecode_to_type.get(typecode, typecode)(*args)
        self.__dict__['lk'] = RLock()

    def get_lock(self):
        return self.lk

    def get_obj(self):
        return self.raw

    @property
    def value(self):
        CUR.point('value', lambda: self.lk.owner in (None, CUR_TASK(self)), write=False)
        return self.raw.value

    @value.setter
    def value(self, v):
        me = CUR.cur
        CUR.point('value=', lambda: self.lk.owner in (None, me))
        self.raw.value = v


def CUR_TASK(_):
    return CUR.cur


class Array(Shared):
    def __init__(self, typecode, size_or_init, lock=True):
        ty = typecode_to_type.get(typecode, typecode)
        if isinstance(size_or_init, int):
            self.raw = (ty * size_or_init)()
        else:
            self.raw = (ty * len(size_or_init))(*size_or_init)
        self.chars = ty is ctypes.c_char
        self.lk = RLock()

    def get_lock(self):
        return self.lk

    def get_obj(self):
        return self.raw

    def _pt(self, what, write):
        me = CUR.cur
        CUR.point(what, lambda: self.lk.owner in (None, me), write=write)

    def __len__(self):
        return len(self.raw)

    def __getitem__(self, i):
        if not (self.chars and isinstance(i, int) and i > 0):
            self._pt('read', False)
        return self.raw[i]

    def __setitem__(self, i, v):
        self._pt('write', True)
        self.raw[i] = v

    def __iter__(self):
        for i in range(len(self.raw)):
            yield self[i]


class MList(Shared):
    def __init__(self, init=()):
        self.l = [cp(x) for x in init]

    def __len__(self):
        return len(self.l)

    def __getitem__(self, i):
        CUR.point('list read', write=False)
        return cp(self.l[i])

    def __setitem__(self, i, v):
        CUR.point('list write')
        self.l[i] = cp(v)

    def __iter__(self):
        for i in range(len(self.l)):
            yield self[i]

    def append(self, v):
        CUR.point('list append')
        self.l.append(cp(v))

    def pop(self, i=-1):
        CUR.point('list pop')
        return self.l.pop(i)


class MDict(Shared):
    def __init__(self, *a, **k):
        self.d = dict(*a, **k)

    def __len__(self):
        return len(self.d)

    def __getitem__(self, i):
        CUR.point('dict read', write=False)
        return cp(self.d[i])

    def get(self, i, default=None):
        CUR.point('dict read', write=False)
        return cp(self.d.get(i, default))

    def __contains__(self, i):
        CUR.point('dict read', write=False)
        return i in self.d

    def __setitem__(self, i, v):
        CUR.point('dict write')
        self.d[i] = cp(v)

    def __delitem__(self, i):
        CUR.point('dict write')
        del self.d[i]

    def pop(self, *a):
        CUR.point('dict write')
        return self.d.pop(*a)

    def keys(self):
        CUR.point('dict read', write=False)
        return list(self.d)


class Manager(Shared):
    def list(self, init=()):
        return MList(init)

    def dict(self, *a, **k):
        return MDict(*a, **k)

    def Lock(self):
        return Lock()

    def RLock(self):
        return RLock()

    def Value(self, *a, **k):
        return Value(*a, **k)

    def Array(self, *a, **k):
        return Array(*a, **k)

    def Event(self):
        return Event()

    def Condition(self, *a):
        return Condition(*a)

    def shutdown(self):
        pass


class End(Shared):
    def __init__(self):
        self.q, self.peer, self.closed = [], None, False

    def send(self, x):
        if self.closed:
            raise OSError('handle is closed')
        x = cp(x)
        CUR.point('send')
        if self.closed:
            raise OSError('handle is closed')
        self.peer.q.append(x)

    def recv(self):
        if self.closed:
            raise OSError('handle is closed')
        CUR.point('recv', lambda: self.q or self.peer.closed)
        if not self.q:
            raise EOFError()
        return self.q.pop(0)

    def poll(self, timeout=0.0):
        CUR.point('poll', None if timeout is not None else (lambda: self.q), write=False)
        return bool(self.q)

    def close(self):
        self.closed = True
        CUR.version += 1


def Pipe(duplex=True):
    a, b = End(), End()
    a.peer, b.peer = b, a
    return a, b


class Process(Shared):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs, self.task, self.closed = target, args, kwargs or {}, None, False
        self.name, self.daemon, self.pid = name, daemon, None

    def start(self):
        assert self.task is None, 'cannot start a process twice'
        args, kwargs = copy.deepcopy((list(self.args), self.kwargs))
        n = sum(1 for t in CUR.tasks if not t.client)
        self.pid = 10000 + n
        self.task = CUR.spawn('process%d' % n, lambda: self.target(*args, **kwargs))
        CUR.point('start')

    def _ck(self):
        if self.closed:
            raise ValueError('process object is closed')

    def join(self, timeout=None):
        self._ck()
        CUR.point('join', None if timeout is not None else (lambda: self.task.done))

    def is_alive(self):
        self._ck()
        CUR.point('alive', write=False)
        return self.task is not None and not self.task.done

    @property
    def exitcode(self):
        self._ck()
        return None if self.task is None or not self.task.done else (0 if self.task.exc is None else 1)

    def close(self):
        self._ck()
        if self.task is not None and not self.task.done:
            raise ValueError('Cannot close a process while it is still running.')
        self.closed = True


class Push0(Shared):
    def __init__(self, *a, **k):
        self.addr, self.closed = None, False

    def dial(self, addr, block=None):
        self.addr = addr

    def send(self, msg, block=True):
        assert isinstance(msg, (bytes, bytearray))
        CUR.point('notify')
        CUR.trace.append(('notify', self.addr, bytes(msg)))

    def close(self):
        self.closed = True


class _Mp:
    """Stands for pathos.helpers.mp."""

    def __init__(self, real):
        self.__dict__['_real'] = real
        self.__dict__['_fake'] = dict(Process=Process, Pipe=Pipe, Manager=Manager, Value=Value, Array=Array, Lock=Lock, RLock=RLock,
                                      Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=Semaphore, Event=Event,
                                      RawValue=Value, RawArray=Array)

    def __getattr__(self, k):
        f = self._fake.get(k)
        if f is None:
            return getattr(self._real, k)

        def make(*a, **kw):
            return f(*a, **kw) if CUR is not None else getattr(self._real, k)(*a, **kw)

        return make


def install():
    import pathos.helpers as ph
    import pynng
    if isinstance(ph.mp, _Mp):
        return
    ph.mp = _Mp(ph.mp)
    realp = pynng.Push0
    pynng.Push0 = lambda *a, **k: Push0(*a, **k) if CUR is not None else realp(*a, **k)
