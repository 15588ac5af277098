"""
Stub system modules.  They hold no behaviour of their own: every call goes to the environment object of the current
context (cx.env), which a contract defines; that environment is the assumed contract of the operating system.
"""
import os as real_os
import threading as real_threading
import time as real_time
import types

from . import core
from .core import unsupported
from .lists import UNBOUND
from .runtime import PV


def env():
    c = core.CX
    if c is None or c.finished:
        return None
    return getattr(c, "env", None)


class StubModule(types.ModuleType):
    pass


class Tracked(object):
    """objects of a contract: their plain attributes are part of the state that loops are reasoned about with"""

    def __setattr__(self, name, v):
        c = core.CX
        if c is not None and getattr(c, "symbolic", False) and not c.finished:
            old = self.__dict__.get(name, UNBOUND)
            if old is not v and not isinstance(getattr(type(self), name, None), property):
                c.journal.append(("attr", self, name, old))
        object.__setattr__(self, name, v)


def created(obj):
    """obj has just been created: what happens to it is no change of an older state"""
    c = core.CX
    if c is not None and getattr(c, "symbolic", False) and not c.finished:
        c.journal.append(("new", obj))


class DefaultEnv(Tracked):
    """Environment in which nothing may be called; contracts override what the code may do."""

    has_fork = True

    def __init__(self, cx):
        self.cx = cx

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            unsupported("unexpected system call %s" % name)

        return f

    def getpid(self):
        return 1000

    def acquire(self, lock):
        pass

    def release(self, lock):
        pass

    def set_inheritable(self, fd, v):
        unsupported("unexpected system call set_inheritable")


OS_CALLS = [
    "getpid", "fstat", "open", "close", "read", "write", "lseek", "ftruncate", "fsync", "fdatasync", "set_inheritable",
    "get_inheritable", "isatty", "unlink", "get_blocking", "pread", "pwrite", "readv", "dup", "stat", "lstat", "truncate",
]


def make_os():
    m = StubModule("os")
    for n in dir(real_os):
        v = getattr(real_os, n)
        if n.startswith("__"):
            continue
        if isinstance(v, (int, str, bytes, tuple)) or n in ("error", "fspath", "PathLike", "path", "environ", "fsencode",
                                                             "fsdecode", "stat_result", "strerror"):
            m.__dict__[n] = v

    def mk(n):
        def f(*a, **k):
            e = env()
            if e is None:
                if n == "getpid":
                    return 1000
                raise OSError(9, "stub kernel is gone")
            return getattr(e, n)(*a, **k)

        f.__name__ = n
        return f

    for n in OS_CALLS:
        m.__dict__[n] = mk(n)

    def _fork():
        unsupported("fork")

    def ga(name):
        if name == "fork":
            e = env()
            if e is None or e.has_fork:
                return _fork
        raise AttributeError("module 'os' has no attribute %r" % name)

    m.__dict__["__getattr__"] = ga
    return m


def make_time():
    m = StubModule("time")

    def now():
        return env().now()

    m.time = now
    m.monotonic = now
    m.perf_counter = now
    m.sleep = lambda d: env().sleep(d)
    return m


class StubRLock(object):
    reentrant = True

    def __init__(self, kind="thread"):
        self.depth = 0
        self.kind = kind

    def acquire(self, blocking=True, timeout=-1):
        if self.depth and not self.reentrant:
            c = core.CX
            if c is not None:
                c.fail("*:deadlock", "a non reentrant mutex is acquired twice by one thread")
        self.depth += 1
        if core.CX is not None:
            core.CX.held = getattr(core.CX, "held", 0) + 1
        e = env()
        if e is not None:
            e.acquire(self)
        return True

    def release(self):
        if self.depth <= 0:
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if core.CX is not None:
            core.CX.held = getattr(core.CX, "held", 0) - 1
        e = env()
        if e is not None:
            e.release(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.depth > 0


class StubLock(StubRLock):
    reentrant = False

    def locked(self):
        return self.depth > 0


class StubCondition(object):
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else StubRLock()
        self.notified = 0
        self.serial = None

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def release(self):
        self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        if not self.lock.depth:
            raise RuntimeError("cannot wait on un-acquired lock")
        e = env()
        d = self.lock.depth
        self.lock.depth = 0
        try:
            return e.cond_wait(self, timeout)
        finally:
            self.lock.depth = d

    def wait_for(self, predicate, timeout=None):
        cell = [predicate()]

        def cond():
            return not cell[0]

        def body():
            self.wait(timeout)
            cell[0] = predicate()
            if timeout is not None:
                return ("brk", None)

        PV.while_loop(cond, body, lambda n: () if n is None else None, lambda n, v: None, "wait_for")
        return cell[0]

    def notify_all(self):
        if not self.lock.depth:
            raise RuntimeError("cannot notify on un-acquired lock")
        self.notified = "all"
        e = env()
        if e is not None:
            e.cond_notify(self, "all")

    notifyAll = notify_all

    def notify(self, n=1):
        if not self.lock.depth:
            raise RuntimeError("cannot notify on un-acquired lock")
        if self.notified != "all":
            self.notified = self.notified + n
        e = env()
        if e is not None:
            e.cond_notify(self, n)


def make_threading():
    m = StubModule("threading")
    m.RLock = StubRLock
    m.Lock = StubLock
    m.Condition = StubCondition
    m.__dict__["__getattr__"] = lambda n: getattr(real_threading, n)
    return m


def make_multiprocessing():
    m = StubModule("multiprocessing")

    def RLock():
        return StubRLock("process")

    m.RLock = RLock
    m.Lock = lambda: StubLock("process")
    return m


def make_fcntl():
    import fcntl as real

    m = StubModule("fcntl")
    for n in dir(real):
        if n.isupper():
            m.__dict__[n] = getattr(real, n)
    for n in ("lockf", "fcntl", "flock", "ioctl"):
        m.__dict__[n] = (lambda n: lambda *a, **k: getattr(env(), "fcntl_" + n)(*a, **k))(n)
    return m


def make_warnings():
    m = StubModule("warnings")
    m.warn = lambda *a, **k: (env().warn(*a, **k) if env() is not None and hasattr(type(env()), "warn") else None)
    return m


def standard():
    return {
        "os": make_os(), "time": make_time(), "threading": make_threading(),
        "multiprocessing": make_multiprocessing(), "fcntl": make_fcntl(), "warnings": make_warnings(),
    }
