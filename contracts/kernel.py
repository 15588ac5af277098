"""
The assumed contract of the operating system, and the contract of the lock table as its callers see it (the one that
contracts/registry.py discharges against the code of the table).
"""
import errno
import os
import stat

from pyvc import core, lists, loader, runtime, stubs
from pyvc.core import And_, Eq_, If_, Iff_, Implies_, Not_, Or_, unsupported
from pyvc.lists import l_empty, l_exists, l_forall, l_pairwise, same_value

REGULAR, FIFO, DIRECTORY = stat.S_IFREG | 0o644, stat.S_IFIFO | 0o644, stat.S_IFDIR | 0o755


class Interruption(BaseException):
    """an asynchronous exception (KeyboardInterrupt, MemoryError ...)"""


class RegProxy(object):
    """stands for the single instance of the lock table in the modules that use it"""

    def __init__(self, real):
        self.__dict__["real"] = real

    def __getattr__(self, name):
        c = core.CX
        if c is None or c.finished:
            raise RuntimeError("pyvc: no context")
        r = getattr(c, "registry", None)
        return getattr(self.real if r is None else r, name)


def make_world(instr, stub_modules=None):
    s = stubs.standard()
    more = dict(stub_modules or {})
    blocked, more_builtins = more.pop("blocked", ()), more.pop("builtins", {})
    s.update(more)
    W = loader.World(s, instr, blocked=blocked)
    W.builtins.update(more_builtins)
    m = W["rsfile_registries"]
    m.IntraProcessLockRegistry = RegProxy(m.IntraProcessLockRegistry)
    return W


class Stat(object):
    pass


# what the code (or the exception class chosen by Python) distinguishes, and representatives of the rest
ERRNOS = [errno.EIO, errno.EAGAIN]


class KEnv(stubs.DefaultEnv):
    """Kernel: one file, opened as one descriptor."""

    def __init__(self, cx, mode=REGULAR):
        stubs.DefaultEnv.__init__(self, cx)
        self.fd = cx.int("fd", lo=0)
        self.dev, self.ino = cx.int("st_dev", lo=0), cx.int("st_ino", lo=0)
        self.mode = mode
        self.size = cx.int("size", lo=0)
        self.pos = cx.int("pos", lo=0)
        self.blksize = 4096
        self.times = (1.0, 2.0, 3.0)
        self.active = False
        self.may_close = self.may_fail = False
        self.events = []
        self.closed_fds = runtime.mk_list([])

    def own(self, fd, what):
        self.cx.check("C05,C06,C07,C12,C15,C16,C17,C20,C25:system calls are made on the stream's own descriptor",
                      lambda: Eq_(fd, self.fd), call=what)

    def fstat(self, fd):
        self.own(fd, "fstat")
        s = Stat()
        s.st_dev, s.st_ino, s.st_mode, s.st_size = self.dev, self.ino, self.mode, self.size
        s.st_atime, s.st_mtime, s.st_ctime = self.times
        s.st_blksize = self.blksize
        return s

    def stat(self, path, **kw):
        """the file now at a path has nothing to do with the one opened"""
        if isinstance(path, int):
            return self.fstat(path)
        cx = self.cx
        if cx.flag("nothing at the path"):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        s = Stat()
        s.st_dev, s.st_ino, s.st_size = [cx.int("file at the path: " + n, lo=0) for n in ("dev", "ino", "size")]
        s.st_mode, s.st_blksize = REGULAR, 4096
        s.st_atime, s.st_mtime, s.st_ctime = [cx.real("file at the path: " + n, lo=0) for n in ("atime", "mtime", "ctime")]
        return s

    lstat = stat

    def lseek(self, fd, off, whence):
        self.own(fd, "lseek")
        if whence == os.SEEK_SET:
            p = off
        elif whence == os.SEEK_CUR:
            p = self.pos + off
        else:
            p = self.size + off
        if p < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = p
        return p

    def isatty(self, fd):
        return False

    def warn(self, *a, **k):
        pass


def is_instance_of_file(cx, env, uid):
    if type(uid) is not tuple or len(uid) != 2:
        return False
    return And_(Eq_(uid[0], env.dev), Eq_(uid[1], env.ino))


def open_stream(cx, W, env, read, write, closefd=True, backend="rsfileio_unix", append=False):
    """a stream wrapping the descriptor of the environment, built by the real constructor"""
    cls = W[backend].RSFileIO
    st = cls(fileno=env.fd, read=read, write=write, closefd=closefd, append=append)
    env.stream = st
    return st


def set_options(W, enforced=None, delay=0.1):
    W["rsfile_registries"].set_rsfile_options(enforced_locking_timeout_value=enforced, default_spinlock_delay=delay)


def end_of(start, length):
    if length is None:
        return None
    return If_end(start, length)


def If_end(start, length):
    if core.is_sym(length):
        if core.CX.fork(core.zb(length == 0)):
            return None
        return start + length
    return None if length == 0 else start + length


def in_range(b, start, end):
    return And_(b >= start, True if end is None else b < end)


def covers(b, start, length):
    """byte b is in the range of length bytes from start (up to the end of file when length is 0 or None)"""
    if length is None:
        return b >= start
    return And_(b >= start, Or_(length == 0, b < start + length))


def same_range(start, length, rec_start, rec_length):
    """length may be 0 or None for a range up to the end of file, rec_length may be None"""
    if length is None:
        e = rec_length is None
    elif rec_length is None:
        e = length == 0
    else:
        e = And_(Not_(length == 0), Eq_(length, rec_length))
    return And_(Eq_(start, rec_start), e)
