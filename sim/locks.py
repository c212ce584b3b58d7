"""Locks that the simulator schedules.

The code under test has no locks of its own at the pinned commit. If a change
adds one, it must not block the (only running) simulated thread for real, so
``threading.Lock`` and ``RLock`` are replaced with versions that, under the
simulated scheduler, hand control over instead of blocking. Outside of it they
behave like ordinary locks.
"""

import threading


REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock
SCHED = [None]      # the active scheduler (see sim.threads), or None


class SimLock:

    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = REAL_RLOCK() if self.reentrant else REAL_LOCK()

    def acquire(self, blocking=True, timeout=-1):
        sched = SCHED[0]
        if sched is None or not sched.is_ours():
            return self._real.acquire(blocking, timeout)
        me = threading.get_ident()
        while self._owner is not None and not (
                self.reentrant and self._owner == me):
            if not blocking or timeout == 0:
                return False
            sched.blocked_on(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            self._real.release()
            return
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0

    def locked(self):
        if self._owner is not None:
            return True
        return self._real.locked() if hasattr(self._real, 'locked') else False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    # For `threading.Condition`.

    def _is_owned(self):
        if self._owner is not None:
            return self._owner == threading.get_ident()
        if hasattr(self._real, '_is_owned'):
            return self._real._is_owned()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
        self._real._at_fork_reinit()


class SimRLock(SimLock):

    reentrant = True


class _FromSUT:

    """Only code under test gets simulated locks: everything else (the
    interpreter's own modules, our harness) keeps the real ones."""

    def __init__(self, real, sim):
        self.real = real
        self.sim = sim

    def __call__(self, *args, **kwargs):
        import sys
        from sim import sut
        frame = sys._getframe(1)
        for _ in range(4):      # e.g. through a subclass or a factory
            if frame is None:
                break
            if sut.is_sut_file(frame.f_code.co_filename):
                return self.sim()
            frame = frame.f_back
        return self.real(*args, **kwargs)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = _FromSUT(REAL_LOCK, SimLock)
    threading.RLock = _FromSUT(REAL_RLOCK, SimRLock)
