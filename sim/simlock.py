"""Locks the in-node thread scheduler knows about.

install() replaces threading.Lock/RLock (before hermipy is imported), so that a lock
added to the library blocks simulated threads through the scheduler instead of
stopping the whole node."""
import _thread
import threading

ACTIVE = [None]     # the running Sched, if any


class SimLock:
    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE[0]
        t = s.tid() if s is not None else None
        if t is None:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or not s.block(t, self, timeout is not None and timeout >= 0):
                return False
        return True

    def release(self):
        self._l.release()
        s = ACTIVE[0]
        if s is not None:
            s.unblock(self)

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(threading._PyRLock):
    def __init__(self):
        super().__init__()
        self._block = SimLock()


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
