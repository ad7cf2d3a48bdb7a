"""The simulation kernel: tasks with baton passing, virtual time, seeded scheduling."""
import _thread
import hashlib
import sys
import threading
import traceback

from . import rng

T0 = 1_800_000_000          # simulated epoch at kernel time 0


class Killed(BaseException):
    """Raised inside a task whose RP process has crashed."""


class SimAbort(BaseException):
    """The run as a whole is over (step cap)."""


class HarnessError(Exception):
    pass


class Task:
    def __init__(self, kernel, name, fn, at):
        self.kernel = kernel
        self.name = name
        self.fn = fn
        self.wake = at
        self.lock = None            # SimLock the task waits for
        self.done = False
        self.error = None
        self.killed = False         # crash delivered at the next yield while in an RP call
        self.in_rp = 0              # depth of RP calls
        self.line_off = 0           # >0: no statement preemption
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.ident = None
        self.started = False
        self.data = {}
        self.held = []              # SimLocks

    def drop_locks(self):
        """The process is gone, and its locks with it (an exception raised at the very end of a
        with statement leaves one locked)."""
        for l in self.held[:]:
            l.force()
        self.held = []

    def _main(self):
        self.baton.acquire()
        self.ident = _thread.get_ident()
        self.kernel.by_ident[self.ident] = self
        try:
            self.fn(self)
        except Killed:
            pass
        except SimAbort:
            pass
        except BaseException as err:    # a harness problem, never an outcome of the code under test
            self.error = (err, traceback.format_exc())
        finally:
            self.drop_locks()
            self.done = True
            self.kernel.by_ident.pop(self.ident, None)
            self.kernel.main.release()


class Kernel:
    def __init__(self, sched, max_steps=60000):
        self.now = 0.0
        self.tasks = []
        self.by_ident = {}
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.sched = sched or {}
        self.choices = []           # recorded decisions (index among runnable)
        self.n_dec = 0
        self.steps = 0
        self.max_steps = max_steps
        self.current = None
        self.last = None
        self.log = []
        self.aborted = False
        self.capped = False
        # statement preemption
        self.lines = 0
        self.points_hit = []
        self._points = self.sched.get("points")
        self._gap = self.sched.get("gap") or 0
        self._seed = self.sched.get("seed", 0)
        self._script = self.sched.get("choices")
        self._n_pt = 0
        self._next_pt = self._first_point()
        self.inter = hashlib.blake2b(digest_size=8)

    # ---- statement preemption -------------------------------------------------
    def _first_point(self):
        if self._points is not None:
            return self._points[0] if self._points else None
        if self._gap:
            return 1 + rng.below(2 * self._gap, self._seed, "pt", 0)
        return None

    def _advance_point(self):
        self._n_pt += 1
        if self._points is not None:
            self._next_pt = self._points[self._n_pt] if self._n_pt < len(self._points) else None
        else:
            # mix of short and long gaps: races hide in a few adjacent statements
            g = self._gap if rng.chance(0.6, self._seed, "ptm", self._n_pt) else max(1, self._gap // 12)
            self._next_pt = self.lines + 1 + rng.below(2 * g, self._seed, "pt", self._n_pt)

    def _stall(self):
        """How long a preempted thread is kept off the processor: others run on meanwhile."""
        if not self.sched.get("stall"):
            return 0.0
        u = rng.below(1000, self._seed, "stall", self.lines)
        if u < 450:
            return 0.0
        if u < 750:
            return 0.02 + (u - 450) / 1000.0
        return 0.3 + (u - 750) / 100.0

    def on_line(self):
        """Called for every executed statement of the code under test."""
        task = self.by_ident.get(_thread.get_ident())
        if task is None or task is not self.current or not task.in_rp or task.line_off:
            return
        self.lines += 1
        if self._next_pt is not None and self.lines >= self._next_pt:
            self.points_hit.append(self.lines)
            self._advance_point()
            self._switch(task, self.now + self._stall())

    # ---- tasks -----------------------------------------------------------------
    def spawn(self, name, fn, at=None):
        t = Task(self, name, fn, self.now if at is None else max(at, self.now))
        self.tasks.append(t)
        return t

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def sleep(self, dt):
        t = self.me()
        if t is None:
            raise HarnessError("sleep outside a task")
        self._switch(t, self.now + max(0.0, dt))

    def yield_(self):
        self.sleep(0)

    def wait_lock(self, lock, timeout=None):
        t = self.me()
        t.lock = lock
        try:
            self._switch(t, self.now if timeout is None else self.now + timeout)
        finally:
            t.lock = None

    def _switch(self, t, wake):
        t.wake = wake
        self.main.release()
        t.baton.acquire()
        self.current = t
        if self.aborted:
            raise SimAbort()
        if t.killed and t.in_rp:
            raise Killed()

    def kill_in_rp(self):
        n = 0
        for t in self.tasks:
            if not t.done and t.in_rp:
                t.killed = True
                t.lock = None
                n += 1
        return n

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.lock is not None and not t.killed:
                if t.lock.free():
                    out.append(t)
                continue
            if t.wake <= self.now + 1e-9:
                out.append(t)
        return out

    def _choose(self, n):
        i = self.n_dec
        self.n_dec += 1
        if self._script is not None:
            c = self._script[i] if i < len(self._script) else 0
            c = c % n
        elif self.sched.get("fifo"):
            c = 0
        else:
            c = rng.below(n, self._seed, "dec", i)
        self.choices.append(c)
        return c

    def run(self):
        while True:
            live = [t for t in self.tasks if not t.done]
            if not live:
                break
            ready = self._runnable()
            if not ready:
                waits = [t.wake for t in live if t.lock is None]
                if not waits:
                    raise HarnessError("deadlock: %s" % [t.name for t in live])
                self.now = max(self.now, min(waits))
                continue
            if self.last in ready:      # default (choice 0) continues the running task
                ready.remove(self.last)
                ready.insert(0, self.last)
            t = ready[0] if len(ready) == 1 else ready[self._choose(len(ready))]
            if t is not self.last:
                self.inter.update(t.name.encode() + b"@%d;" % self.lines)
            self.last = t
            self.steps += 1
            if self.steps > self.max_steps and not self.aborted:
                self.aborted = True
                self.capped = True
            self.current = t
            if not t.started:
                t.started = True
                if self.aborted:
                    t.done = True
                    continue
                _start(t._main)
            t.baton.release()
            self.main.acquire()
            self.current = None
            if t.error:
                err, tb = t.error
                if not self.aborted:
                    self.aborted = True
                    self._drain()
                raise HarnessError("task %s failed: %r\n%s" % (t.name, err, tb))

    def _drain(self):
        for t in self.tasks:
            while t.started and not t.done:
                t.lock = None
                t.baton.release()
                self.main.acquire()

    def event(self, *what):
        t = self.current.name if self.current else "-"
        self.log.append((self.steps, round(self.now, 3), t) + what)

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()

    def interleaving(self):
        return self.inter.hexdigest()


def _start(fn):
    _thread.start_new_thread(fn, ())


ACTIVE = None       # the kernel of the run in progress, if any


def current_task():
    k = ACTIVE
    return k.me() if k is not None else None


class SimLock:
    """threading.Lock / RLock stand-in: a simulated task that would block parks on the kernel."""

    def __init__(self, reentrant=False):
        self._l = _thread.allocate_lock()
        self._re = reentrant
        self._owner = None
        self._n = 0
        self._task = None

    def free(self):
        return not self._l.locked()

    def locked(self):
        return self._l.locked()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        t = current_task()
        if t is None:
            ok = self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        else:
            ok = self._l.acquire(False)
            if not ok and blocking:
                k = ACTIVE
                end = None if timeout is None or timeout < 0 else k.now + timeout
                while not ok:
                    k.wait_lock(self, None)
                    ok = self._l.acquire(False)
                    if not ok and end is not None and k.now >= end:
                        break
        if ok:
            self._owner = me
            self._n = 1
            self._task = t
            if t is not None:
                t.held.append(self)
        return ok

    def force(self):
        self._owner, self._n, self._task = None, 0, None
        if self._l.locked():
            self._l.release()

    def release(self):
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._forget()
        self._l.release()

    def _forget(self):
        t, self._task = self._task, None
        if t is not None and self in t.held:
            t.held.remove(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # protocol used by threading.Condition
    def _is_owned(self):
        if self._re:
            return self._owner == _thread.get_ident()
        if self._l.acquire(False):
            self._l.release()
            return False
        return True

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._forget()
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()
        self._owner, self._task = None, None
        self._n = 0


def Lock():
    return SimLock(False)


def RLock(*a, **k):
    return SimLock(True)
