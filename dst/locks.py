"""Seam for locks: a lock that CommDspy code creates is owned by the simulator.

The shipped package uses none.  A tree that does must not stall the simulated threads: a caller that waits for a lock
held by a descheduled caller hands control back, and a wait nobody can end is an error instead of a hang.  Locks made by
any other code are the real ones.
"""
import os
import sys
import threading

_lock, _rlock = threading.Lock, threading.RLock
ROOT = os.path.join(os.path.abspath(os.environ.get('VERIF_REPO', '/repo')), 'CommDspy') + os.sep
current = {}        # thread id -> simulated caller


class Deadlock(RuntimeError):
    pass


class SimLock:
    def __init__(self, reentrant=False):
        self._reentrant, self._owner, self._depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner, self._depth = me, self._depth + 1
                return True
            if not blocking:
                return False
            c = current.get(me)
            if c is None or self._owner == me or not c.wait(self):
                if timeout is not None and timeout >= 0:
                    return False        # the wait would end by its time limit
                raise Deadlock('a lock is never released')

    def release(self):
        if self._owner is None or (self._reentrant and self._owner != threading.get_ident()):
            raise RuntimeError('release unlocked lock')
        self._depth -= 1
        if self._depth == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


def _ours():
    return sys._getframe(2).f_code.co_filename.startswith(ROOT)


def Lock():
    return SimLock() if _ours() else _lock()


def RLock(*a):
    return SimLock(True) if _ours() else _rlock(*a)


def install():
    threading.Lock, threading.RLock = Lock, RLock
