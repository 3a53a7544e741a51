"""Controlled scheduler for real threads.  Import before anything of warcio.

Exactly one managed thread runs at a time.  Every source line (or bytecode instruction, or
function call) executed in a file of the library (with '@names', one of these files) is a
scheduling point, numbered over the
whole execution; a plan says at which points which thread takes over.  Locks created by the
library are cooperative: a thread that would block hands over, and the absence of a runnable
thread is a deadlock."""
import gc
import os
import sys
import threading
import _thread

from mc.core import REPO, Violation

LIB = os.path.join(os.path.realpath(REPO), 'warcio') + os.sep
_real_lock = threading.Lock
_real_rlock = threading.RLock
ACTIVE = None


def in_lib(frame, depth=6):
    while frame is not None and depth:
        if os.path.realpath(frame.f_code.co_filename).startswith(LIB):
            return True
        frame = frame.f_back
        depth -= 1
    return False


class CoopLock(object):
    """Lock or RLock; blocks cooperatively under the scheduler, really otherwise."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.real = _real_rlock() if reentrant else _real_lock()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or s.me() is None:
            return self.real.acquire(blocking, timeout)
        me = s.me()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            s.block(me, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        s = ACTIVE
        if s is None or s.me() is None:
            return self.real.release()
        if self.owner is None or (self.reentrant and self.owner != s.me()):
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            s.unblock(self)

    def locked(self):
        return self.owner is not None or (not self.reentrant and self.real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _factory(reentrant):
    real = _real_rlock if reentrant else _real_lock

    def make(*a, **kw):
        if in_lib(sys._getframe(1)):
            return CoopLock(reentrant)
        return real(*a, **kw)
    return make


# what was imported of the library so far has created its locks already: import it anew
assert not any(m in sys.modules for m in ('mc.fakenet', 'mc.capture', 'mc.menu', 'mc.build')), 'import mc.sched first'
for _m in [m for m in sys.modules if m == 'warcio' or m.startswith('warcio.')]:
    del sys.modules[_m]
threading.Lock = _factory(False)
threading.RLock = _factory(True)


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Sched(object):
    """Runs the given functions in threads under a plan {point number: thread}."""

    def __init__(self, fns, first=0, plan=None, gran='line'):
        self.fns = fns
        self.plan = dict(plan or {})
        self.first = first
        self.gran = gran
        self.n = 0                       # points so far
        self.sems = [_thread.allocate_lock() for _ in fns]
        for s in self.sems:
            s.acquire()
        self.end = _thread.allocate_lock()
        self.end.acquire()
        self.state = ['ready'] * len(fns)      # ready, blocked, done
        self.waiting = [None] * len(fns)
        self.errors = [None] * len(fns)
        self.results = [None] * len(fns)
        self.ids = {}
        self.owners = []                 # thread of each point, with the others that could run
        self.taken = 0
        self.fail = None
        self.aborting = False
        self.order = []                  # sequence of threads, at hand-overs

    def me(self):
        return self.ids.get(_thread.get_ident())

    # --- points
    def point(self, me):
        if self.aborting:
            raise Abort()
        self.n += 1
        self.owners.append(me)
        t = self.plan.get(self.n)
        if t is not None and t != me and self.state[t] == 'ready':
            self.taken += 1
            self.switch(me, t)

    def switch(self, me, t):
        self.order.append((self.n, me, t))
        self.sems[t].release()
        self.sems[me].acquire()
        if self.aborting:
            raise Abort()

    def block(self, me, lock):
        self.state[me] = 'blocked'
        self.waiting[me] = lock
        t = self.pick(me)
        if t is None:
            self.fail = Deadlock('threads %r wait for locks' % [i for i, s in enumerate(self.state) if s == 'blocked'])
            self.abort()
            raise Abort()
        self.switch(me, t)

    def unblock(self, lock):
        for i, l in enumerate(self.waiting):
            if l is lock:
                self.waiting[i] = None
                self.state[i] = 'ready'

    def pick(self, me):
        n = len(self.fns)
        for k in range(1, n + 1):
            t = (me + k) % n
            if self.state[t] == 'ready' and t != me:
                return t
        return None

    def abort(self):
        self.aborting = True
        for s in self.sems:
            try:
                s.release()
            except RuntimeError:
                pass

    # --- threads
    def _trace(self, me):
        files = {}
        gran, _, core = self.gran.partition('@')

        def local(frame, event, arg):
            if event == ('opcode' if gran == 'opcode' else 'line'):
                self.point(me)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            ok = files.get(f)
            if ok is None:
                ok = files[f] = os.path.realpath(f).startswith(LIB) and (not core or os.path.basename(f) in core)
            if not ok:
                return None
            if gran == 'call':
                self.point(me)
                return None
            if gran == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return glob

    def _run(self, i):
        self.ids[_thread.get_ident()] = i
        self.sems[i].acquire()
        try:
            if not self.aborting:
                sys.settrace(self._trace(i))
                try:
                    self.results[i] = self.fns[i]()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.errors[i] = e
        self.state[i] = 'done'
        self.finish(i)

    def finish(self, i):
        if self.aborting:
            if all(s == 'done' for s in self.state):
                self.end.release()
            return
        t = self.pick(i)
        if t is not None:
            self.order.append((self.n, i, t))
            self.sems[t].release()
            return
        if all(s == 'done' for s in self.state):
            self.end.release()
            return
        self.fail = Deadlock('threads %r wait for locks that are never released' % [k for k, s in enumerate(self.state) if s == 'blocked'])
        self.abort()

    def run(self):
        global ACTIVE
        was = gc.isenabled()
        gc.disable()
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.fns))]
        ACTIVE = self
        try:
            for t in ts:
                t.start()
            self.sems[self.first].release()
            # returning to the interpreter now and then lets the watchdog's signal through
            while not self.end.acquire(True, 1):
                pass
            for t in ts:
                t.join()
        finally:
            ACTIVE = None
            if was:
                gc.enable()
        if self.fail:
            raise Violation('deadlock: %s' % self.fail)
        for i, e in enumerate(self.errors):
            if e is not None:
                if isinstance(e, Violation):
                    raise e
                import traceback
                raise Violation('thread %d raised %r: %s' % (i, e, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]))
        return self


def plans(measure, nthreads, bound, residue=None, modulus=1):
    """All plans of at most `bound` preemptions, as (first, plan): measure(first, plan) runs
    one and returns (number of points, owner of each point).  residue/modulus select
    a share of the first preemption points."""
    for first in range(nthreads):
        base = measure(first, {})
        if residue in (None, 0):
            yield first, {}
        if bound:
            yield from _extend(measure, nthreads, first, {}, base, 1, bound, residue, modulus)


def _extend(measure, nthreads, first, plan, owners, start, bound, residue, modulus):
    for k in range(start, len(owners) + 1):
        if residue is not None and not plan and k % modulus != residue:
            continue
        for t in range(nthreads):
            if t == owners[k - 1]:
                continue
            p = dict(plan)
            p[k] = t
            sub = yield_one(first, p)
            yield sub
            if bound > 1:
                o = measure(first, p)
                yield from _extend(measure, nthreads, first, p, o, k + 1, bound - 1, None, 1)


def yield_one(first, plan):
    return first, plan
