"""Cooperative locks. Inside a simulated thread, acquiring a held lock parks the thread and lets the simulator pick
who runs; elsewhere they are ordinary locks."""
import _thread
import threading

_current = None  # set by sim.threads to a function () -> (scheduler, tid) | None


class Deadlock(BaseException):
    """A thread waits for a lock that nobody can release."""


class SimLock:
    _re = False

    def __init__(self):
        self._owner = None  # simulated owner: tid
        self._count = 0
        self._real = _thread.RLock() if self._re else _thread.allocate_lock()

    def _ctx(self):
        return _current() if _current is not None else None

    def acquire(self, blocking=True, timeout=-1):
        c = self._ctx()
        if c is None:
            if blocking and timeout < 0 and threading.active_count() == 1:
                if self._real.acquire(False):
                    return True
                raise Deadlock("the only thread waits for a lock it did not release")
            return self._real.acquire(blocking, timeout)
        sched, tid = c
        while True:
            if self._owner is None:
                self._owner, self._count = tid, 1
                sched.on_lock(self, tid, "acquire")
                return True
            if self._re and self._owner == tid:
                self._count += 1
                return True
            if not blocking:
                return False
            if not sched.block_on(self, tid, timed=timeout is not None and timeout >= 0):
                return False

    def release(self):
        c = self._ctx()
        if c is None:
            if self._owner is not None:
                self._owner, self._count = None, 0
                return
            return self._real.release()
        sched, tid = c
        if self._owner is None or (self._re and self._owner != tid):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._owner, self._count = None, 0
            sched.on_lock(self, tid, "release")

    def locked(self):
        c = self._ctx()
        if c is None:
            if self._re:
                if self._real.acquire(False):
                    self._real.release()
                    return False
                return True
            return self._real.locked()
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0
        self._real = _thread.RLock() if self._re else _thread.allocate_lock()

    # threading.Condition support
    def _is_owned(self):
        c = self._ctx()
        if c is None:
            if hasattr(self._real, "_is_owned"):
                return self._real._is_owned()
            if self._real.acquire(False):
                self._real.release()
                return False
            return True
        return self._owner == c[1]


class SimRLock(SimLock):
    _re = True
