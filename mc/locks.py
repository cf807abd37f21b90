"""Locks of Python and of files that tell a scheduler when a thread would have to wait.

Put in the place of the real ones before the repository is imported, so that whatever lock its code takes, and however,
a thread that cannot go on gives way to the others. Outside a schedule they are the real ones.
"""
import _thread
import fcntl
import threading
import time

current = None  # the scheduler of the running schedule: wait(thread, attempt), nap(thread), ids
_allocate = _thread.allocate_lock
_sleep = time.sleep


def me():
    t = current
    i = t and t.ids.get(threading.get_ident())
    return (None, None) if i is None else (t, i)


class Lock:
    def __init__(self):
        self._l = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        t, i = me()
        if t is None:
            return self._l.acquire(blocking, timeout)
        if not blocking or timeout == 0:
            return self._l.acquire(False)
        t.wait(i, lambda: self._l.acquire(False))
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self._l.release()

    def _at_fork_reinit(self):
        self._l = _allocate()


class RLock:
    def __init__(self):
        self._l, self._owner, self._n = Lock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        i = threading.get_ident()
        if self._owner == i:
            self._n += 1
            return True
        if not self._l.acquire(blocking, timeout):
            return False
        self._owner, self._n = i, 1
        return True

    def release(self):
        if self._owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self._l.acquire()
        self._owner, self._n = threading.get_ident(), n

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()
        self._owner, self._n = None, 0


def _file_lock(real):
    def f(fd, op, *a):
        t, i = me()
        if t is None or op & fcntl.LOCK_NB or op & fcntl.LOCK_UN:
            return real(fd, op, *a)

        def attempt():
            try:
                real(fd, op | fcntl.LOCK_NB, *a)
                return True
            except BlockingIOError:
                return False

        t.wait(i, attempt)

    f.__name__ = real.__name__
    return f


def sleep(secs):
    t, i = me()
    if t is None:
        return _sleep(secs)
    t.nap(i)


def install():
    if threading.Lock is not Lock:
        threading.Lock = threading._allocate_lock = Lock
        threading.RLock = RLock
        fcntl.flock, fcntl.lockf = _file_lock(fcntl.flock), _file_lock(fcntl.lockf)
        time.sleep = sleep
