"""Cooperative scheduler: real threads, parked and released one at a time at the simulator's choice.

A thread may be switched out before any line (or bytecode) of the library's own code, in user callables, and where a
lock is taken.  Which thread runs next is decided by a seeded generator, or read back from a recorded schedule.
"""
import dis
import random
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
ROOT = '/repo/src/wafo/'
CURRENT = None          # the scheduler of the run in progress


class Deadlock(Exception):
    pass


class SimLock(object):
    """stands in for threading.Lock/RLock in library code"""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = CURRENT
        if s is not None and s.knows(me):
            s.tick('lock')
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            if s is None or not s.knows(me):
                raise Deadlock('a lock is taken twice by the same caller')
            if not s.block(self):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
        s = CURRENT
        if s is not None and s.knows(_thread.get_ident()):
            s.tick('unlock')

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def _from_library():
    return sys._getframe(2).f_code.co_filename.startswith(ROOT)


def patch_threading():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _from_library() else real_lock()

    def RLock(*a, **k):
        return SimLock(True) if _from_library() else real_rlock(*a, **k)
    threading.Lock, threading.RLock = Lock, RLock


_HOT = {}
_STORES = {'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_SLICE', 'DELETE_GLOBAL'}


def hot_lines(code):
    h = _HOT.get(code)
    if h is None:
        h = set()
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.starts_line:
                line = ins.starts_line
            if ins.opname in _STORES or (ins.opname in ('LOAD_ATTR', 'LOAD_METHOD')
                                         and ins.argval in ('append', 'extend', 'update', 'pop', 'clear', 'insert', 'setdefault', 'sort', 'fill', 'seed')):
                h.add(line)
        _HOT[code] = h
    return h


class Sched(object):
    def __init__(self, bodies, mode, seed, schedule=None, max_ticks=400000, plan=None):
        """bodies: functions to run, one thread each.  mode: dict(gap=..., hot=..., opcodes=..., points=[...]).
        plan: [[thread, n, to], ...], taken in order: at its n-th scheduling point the thread is switched out for another;
        a thread that ends or waits is followed by the first that can run"""
        self.bodies, self.mode, self.max_ticks = bodies, mode, max_ticks
        self.rng = random.Random(seed)
        self.n = len(bodies)
        self.locks = [_real_lock() for _ in bodies]
        for l in self.locks:
            l.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.timed_out = [False] * self.n
        self.ident = {}
        self.cur = None
        self.ticks = 0
        self.log = []                      # [tick, thread, forced]
        self.replay = None if schedule is None else {int(t): int(k) for t, k in schedule}
        self.failure = None
        self.left = self._gap()
        self.points = set(mode.get('points') or ())
        self.lasthot = [False] * self.n
        self.switches = 0
        self.sites = set()
        self.plan = None if plan is None else [list(x) for x in plan]
        self.own = [0] * self.n            # scheduling points of each thread
        self.seen = [[] for _ in bodies]   # where they were, and whether shared state may just have been written

    def knows(self, ident):
        return ident in self.ident

    def _gap(self):
        g = self.mode.get('gap')
        if not g:
            return 1 << 60
        return 1 + int(self.rng.expovariate(1.0 / g))

    def _runnable(self, but=None):
        return [i for i in range(self.n) if not self.done[i] and i != but and self._free(i)]

    def _free(self, i):
        b = self.blocked[i]
        return b is None or b._owner is None

    def tick(self, where, hot=False):
        me = self.cur
        self.ticks += 1
        if self.ticks > self.max_ticks:
            return
        self.own[me] += 1
        if self.plan is not None:
            if len(self.seen[me]) < 20000:
                self.seen[me].append((where, self.lasthot[me]))
            self.lasthot[me] = hot
            if self.plan and self.plan[0][0] == me and self.own[me] >= self.plan[0][1]:
                to = self.plan.pop(0)[2]
                if to != me and to < self.n and not self.done[to] and self._free(to):
                    self._switch(me, to, where)
            return
        if self.replay is not None:
            to = self.replay.get(self.ticks)
            if to is not None and to != me and to < self.n and not self.done[to] and self._free(to):
                self._switch(me, to, where)
            return
        go = False
        self.left -= 1
        if self.left <= 0:
            go = True
            self.left = self._gap()
        if self.ticks in self.points:
            go = True
        if self.lasthot[me] and self.mode.get('hot') and self.rng.random() < self.mode['hot']:
            go = True
        self.lasthot[me] = hot
        if go:
            others = self._runnable(me)
            if others:
                to = others[self.rng.randrange(len(others))]
                self.log.append([self.ticks, to])
                self._switch(me, to, where)

    def _switch(self, me, to, where):
        self.switches += 1
        self.sites.add(str(where))
        self.cur = to
        self.locks[to].release()
        self.locks[me].acquire()

    def block(self, lock):
        """wait for a lock; False if the wait timed out (nobody can ever release it)"""
        me = self.cur
        self.ticks += 1
        self.blocked[me] = lock
        to = self._choose(me)
        if to is None:
            self.blocked[me] = None
            self.failure = 'deadlock: every caller waits for a lock'
            raise Deadlock(self.failure)
        self._switch(me, to, 'lock')
        self.blocked[me] = None
        return True

    def _choose(self, me):
        others = self._runnable(me)
        if not others:
            return None
        if self.plan is not None:
            return others[0]
        if self.replay is not None:
            to = self.replay.get(self.ticks)
            if to in others:
                return to
            return others[0]
        to = others[self.rng.randrange(len(others))]
        self.log.append([self.ticks, to])
        return to

    def _tracer(self, tid):
        opcodes = bool(self.mode.get('opcodes'))

        def local(frame, event, arg):
            if event == 'line':
                ln = frame.f_lineno
                self.tick((frame.f_code.co_filename[len(ROOT):], ln), ln in hot_lines(frame.f_code))
            elif event == 'opcode':
                self.tick((frame.f_code.co_filename[len(ROOT):], frame.f_lineno))
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            if code.co_filename.startswith(ROOT) and code.co_name != '<module>':
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def _run(self, tid):
        self.locks[tid].acquire()
        sys.settrace(self._tracer(tid))
        try:
            self.bodies[tid]()
        except BaseException as e:                                  # noqa
            self.failure = self.failure or 'harness: %r' % e
        finally:
            sys.settrace(None)
            self.done[tid] = True
            self.ticks += 1
            to = self._choose(tid)
            if to is None:
                if not all(self.done):
                    self.failure = self.failure or 'deadlock: a lock was never released'
                self.main.release()
            else:
                self.cur = to
                self.locks[to].release()

    def run(self):
        global CURRENT
        CURRENT = self
        threads = []
        for i in range(self.n):
            t = threading.Thread(target=self._run, args=(i,), daemon=True)
            t.start()
            self.ident[t.ident] = i
            threads.append(t)
        self.ticks += 1
        first = self._choose(None)
        self.cur = first
        self.locks[first].release()
        self.main.acquire()
        CURRENT = None
        return self


def count_lines(fn):
    """number of library lines executed by fn() (and its result)"""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def glob(frame, event, arg):
        code = frame.f_code
        if code.co_filename.startswith(ROOT) and code.co_name != '<module>':
            return local
        return None
    sys.settrace(glob)
    try:
        r = fn()
    finally:
        sys.settrace(None)
    return n[0], r
