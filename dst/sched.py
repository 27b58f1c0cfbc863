"""Deterministic scheduler: real threads, released one at a time; every choice comes from one seeded generator.

Yield points are trace events (lines or opcodes) in the code under test, callback entries, lock operations and stream
operations.  Nothing else ever decides who runs.
"""
import sys
import random
import _thread
import threading
import time as _time

from dst.userland import TL

REAL_MONOTONIC = _time.monotonic
REAL_SLEEP = _time.sleep
REPO_PREFIX = '/repo/records/'


def set_prefix(p):
    global REPO_PREFIX
    REPO_PREFIX = p


class StepLimit(BaseException):
    pass


class SimAbort(BaseException):
    pass


# ------------------------------------------------------------------ strategies
class Strategy:
    name = 'serial'

    def start(self, tids):
        return tids[0]

    def pick(self, step, cur, runnable, where):
        """the thread to run next; ``cur`` may not be in ``runnable`` (blocked or finished)"""
        return cur if cur in runnable else runnable[0]


class RandomWalk(Strategy):
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def start(self, tids):
        return self.rng.choice(tids)

    def pick(self, step, cur, runnable, where):
        if cur in runnable and self.rng.random() >= self.p:
            return cur
        return self.rng.choice(runnable)


class CallbackWalk(RandomWalk):
    """switches only at user callbacks"""

    def pick(self, step, cur, runnable, where):
        if cur in runnable and (where is None or self.rng.random() >= self.p):
            return cur
        return self.rng.choice(runnable)


class PCT(Strategy):
    def __init__(self, rng, depth, length):
        self.rng = rng
        self.points = set(rng.randrange(max(1, length)) for _ in range(depth))
        self.prio = {}
        self.low = 0

    def start(self, tids):
        ps = list(range(1000, 1000 + len(tids)))
        self.rng.shuffle(ps)
        self.prio = dict(zip(tids, ps))
        return max(tids, key=lambda t: self.prio[t])

    def pick(self, step, cur, runnable, where):
        if step in self.points:
            self.low -= 1
            self.prio[cur] = self.low
        return max(runnable, key=lambda t: self.prio[t])


class Stall(Strategy):
    """each thread is stopped once (or a few times) at a random point of its own execution; the others run on"""

    def __init__(self, rng, lengths, n):
        self.rng = rng
        self.stops = {}
        for t, ln in lengths.items():
            self.stops[t] = set(rng.randrange(max(1, ln)) for _ in range(n))
        self.count = {t: 0 for t in lengths}
        self.stalled = []

    def start(self, tids):
        self.order = list(tids)
        self.rng.shuffle(self.order)
        return self.order[0]

    def pick(self, step, cur, runnable, where):
        c = self.count.get(cur, 0)
        self.count[cur] = c + 1
        if cur in runnable and c not in self.stops.get(cur, ()):
            return cur
        if cur in runnable:
            self.stalled.append(cur)
        fresh = [t for t in runnable if t not in self.stalled]
        if fresh:
            return fresh[self.rng.randrange(len(fresh))]
        while self.stalled:
            t = self.stalled.pop(self.rng.randrange(len(self.stalled)))
            if t in runnable and (t != cur or len(runnable) == 1):
                return t
        return runnable[self.rng.randrange(len(runnable))]


class RoundRobin(Strategy):
    def __init__(self, q):
        self.q = q
        self.n = 0

    def pick(self, step, cur, runnable, where):
        self.n += 1
        if cur in runnable and self.n % self.q:
            return cur
        for t in runnable:
            if t > cur:
                return t
        return runnable[0]


class Trace(Strategy):
    """replays recorded switches: {step: tid}"""

    def __init__(self, first, switches):
        self.first = first
        self.sw = {int(s): t for s, t in switches}

    def start(self, tids):
        return self.first if self.first in tids else tids[0]

    def pick(self, step, cur, runnable, where):
        t = self.sw.get(step)
        if t is not None and t in runnable:
            return t
        return cur if cur in runnable else runnable[0]


def gen_strategy(rng):
    """a random strategy description (lengths are known only later)"""
    k = rng.random()
    if k < 0.25:
        return {'k': 'rw', 'p': rng.choice([0.03, 0.1, 0.3, 0.6])}
    if k < 0.5:
        return {'k': 'pct', 'd': rng.choice([1, 2, 3, 5])}
    if k < 0.8:
        return {'k': 'stall', 'n': rng.choice([1, 1, 2, 3])}
    if k < 0.9:
        return {'k': 'cb', 'p': rng.choice([0.3, 0.7])}
    return {'k': 'rr', 'q': rng.choice([1, 2, 5])}


def make_strategy(desc, seed, lengths):
    rng = random.Random(seed)
    k = desc['k']
    if k == 'rw':
        return RandomWalk(rng, desc['p'])
    if k == 'cb':
        return CallbackWalk(rng, desc['p'])
    if k == 'pct':
        return PCT(rng, desc['d'], sum(lengths.values()))
    if k == 'stall':
        return Stall(rng, lengths, desc['n'])
    if k == 'rr':
        return RoundRobin(desc['q'])
    if k == 'trace':
        return Trace(desc['first'], desc['sw'])
    return Strategy()


# ------------------------------------------------------------------ the simulator
ACTIVE = None  # the running Sim, if any


class Sim:
    def __init__(self, strategy, step_cap=400000):
        self.strategy = strategy
        self.step = 0
        self.cap = step_cap
        self.switches = []
        self.sig = 0
        self.failure = None
        self.now = 1_600_000_000.0

    # -- called by threads under simulation
    def point(self, ctx, where):
        tid = getattr(TL, 'tid', None)
        if tid is None:
            return
        self.step += 1
        if self.step > self.cap:
            self.fail('hang', f'no end after {self.cap} steps')
        self.now += 0.001
        nxt = self.strategy.pick(self.step, tid, self.runnable(), where)
        if nxt != tid:
            self._switch(tid, nxt)

    def runnable(self):
        return [t for t in self.live if t not in self.blocked]

    def _switch(self, tid, nxt):
        self.switches.append([self.step, nxt])
        self.locks[nxt].release()
        self.locks[tid].acquire()
        if self.failure is not None:
            raise SimAbort

    def block(self, on):
        """the current thread cannot continue until ``unblock(on)``"""
        tid = TL.tid
        self.blocked[tid] = on
        self.step += 1
        run = self.runnable()
        if not run:
            self.fail('deadlock', f'all threads blocked at step {self.step}')
        nxt = self.strategy.pick(self.step, tid, run, None)
        if nxt == tid:
            nxt = run[0]
        self._switch(tid, nxt)

    def unblock(self, on):
        for t in [t for t, o in self.blocked.items() if o is on]:
            del self.blocked[t]

    def fail(self, kind, msg):
        self.failure = (kind, msg)
        self.done.release()
        # park forever: the process ends from the main thread
        lk = _thread.allocate_lock()
        lk.acquire()
        lk.acquire()

    # -- running
    def run(self, bodies):
        """``bodies``: functions of no arguments, one per thread"""
        global ACTIVE
        n = len(bodies)
        self.live = list(range(n))
        self.blocked = {}
        self.locks = []
        self.done = _thread.allocate_lock()
        self.done.acquire()
        for _ in range(n):
            lk = _thread.allocate_lock()
            lk.acquire()
            self.locks.append(lk)

        def body(tid, f):
            TL.tid = tid
            self.locks[tid].acquire()
            try:
                f()
            except SimAbort:
                return
            except BaseException as e:  # harness error
                import traceback
                self.failure = ('harness', ''.join(traceback.format_exception(e)))
                self.done.release()
                return
            finally:
                TL.tid = None
            self.step += 1
            self.live.remove(tid)
            if not self.live:
                self.done.release()
                return
            run = self.runnable()
            if not run:
                self.failure = ('deadlock', 'all remaining threads blocked')
                self.done.release()
                return
            nxt = self.strategy.pick(self.step, tid, run, None)
            self.switches.append([self.step, nxt])
            self.locks[nxt].release()

        for t, f in enumerate(bodies):
            _thread.start_new_thread(body, (t, f))
        ACTIVE = self
        self.first = self.strategy.start(list(range(n)))
        self.locks[self.first].release()
        self.done.acquire()
        ACTIVE = None
        if self.failure is None:
            # let the last thread leave its frame
            REAL_SLEEP(0)
        return self

    def trace_desc(self):
        return {'k': 'trace', 'first': self.first, 'sw': self.switches}


class traced:
    """context manager: trace the code under test in this thread, reporting every step to ``ctx``"""

    def __init__(self, ctx, opcodes):
        self.ctx = ctx
        # (raising an interrupt at a bytecode event crashes CPython 3.12 now and then: operations that are to be interrupted
        # are traced by lines)
        self.opcodes = opcodes and getattr(ctx, 'interrupt_at', None) is None

    def __enter__(self):
        ctx = self.ctx
        point = ctx.step_point
        opcodes = self.opcodes
        prefix = REPO_PREFIX

        def local(frame, ev, arg):
            if ev == 'line' or ev == 'opcode':
                point()
            return local

        def glob(frame, ev, arg):
            code = frame.f_code
            if code.co_filename.startswith(prefix) and code.co_name != '<module>':
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ------------------------------------------------------------------ simulated locks and clock
class SimLock:
    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = None

    _re = False

    def acquire(self, blocking=True, timeout=-1):
        sim = ACTIVE
        me = getattr(TL, 'tid', None)
        if sim is None or me is None:
            me = 'main'
            if self._owner is not None and not (self._re and self._owner == me):
                if not blocking or timeout >= 0:
                    return False
                raise StepLimit('lock never released')
        else:
            ctx = getattr(TL, 'ctx', None)
            if ctx is not None:
                ctx.point(None)
            tries = 0
            while self._owner is not None and not (self._re and self._owner == me):
                if not blocking or (timeout is not None and timeout >= 0 and tries > 2):
                    return False
                tries += 1
                if timeout is not None and timeout >= 0:
                    sim.point(None, None)
                else:
                    sim.block(self)
        self._owner = me
        self._count += 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if ACTIVE is not None:
                ACTIVE.unblock(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self):
        me = getattr(TL, 'tid', None)
        return self._owner == ('main' if me is None else me)


class SimRLock(SimLock):
    _re = True

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        if ACTIVE is not None:
            ACTIVE.unblock(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


_ticks = [1_600_000_000.0]


def _now():
    if ACTIVE is not None:
        return ACTIVE.now
    _ticks[0] += 0.001
    return _ticks[0]


def _sleep(s=0):
    if ACTIVE is not None:
        ACTIVE.now += s
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.point(None)
    else:
        _ticks[0] += s


def install():
    """must run before the code under test is imported"""
    import logging, warnings, queue, concurrent.futures  # noqa: they keep real locks
    threading.Lock = SimLock
    threading.RLock = SimRLock
    _time.time = _now
    _time.monotonic = _now
    _time.perf_counter = _now
    _time.time_ns = lambda: int(_now() * 1e9)
    _time.monotonic_ns = lambda: int(_now() * 1e9)
    _time.sleep = _sleep
    random.seed(12345)
