"""
Contracts of the Windows backend, each discharged twice: over the contract of the pywin32 modules, and over that of
ctypes and the DLLs (the front end of the package itself, windows_ctypes and raw_win32_ctypes, is then real code).

Environment: the native functions of Windows.  Where a contract is that of contracts/locking.py or contracts/rawio.py, it
is the same text, over this environment.
"""
import array
import errno
import fcntl
import os
import sys

import z3

from pyvc.contract import contract
from pyvc import core, lists, runtime, stubs
from pyvc.core import And_, Eq_, If_, Iff_, Implies_, Not_, Or_, SymBytes, SymInt, unsupported

from . import locking, opening, rawio
from pyvc.lists import l_exists, l_forall
from .kernel import DIRECTORY, FIFO, REGULAR, Interruption, KEnv, in_range, set_options

DW = 2**32
GENERIC_READ, GENERIC_WRITE = 0x80000000, 0x40000000
CREATE_NEW, CREATE_ALWAYS, OPEN_EXISTING, OPEN_ALWAYS, TRUNCATE_EXISTING = 1, 2, 3, 4, 5
ATTR_READONLY, ATTR_NORMAL, WRITE_THROUGH = 1, 0x80, 0x80000000
EXCLUSIVE, FAIL_IMMEDIATELY = 2, 1

# what the runtime of C makes of native errors (only these are raised by the environment)
TO_ERRNO = {2: errno.ENOENT, 32: errno.EACCES, 5: errno.EACCES, 6: errno.EBADF, 33: errno.EACCES, 80: errno.EEXIST, 109: errno.EPIPE, 112: errno.ENOSPC,
            232: errno.EPIPE, 1117: errno.EINVAL, 50: errno.EINVAL, 131: errno.EINVAL, 158: errno.EACCES}
TO_NATIVE = {errno.EACCES: 5, errno.EBADF: 6, errno.ENOSPC: 112, errno.EINVAL: 1117, errno.EAGAIN: 33,
             errno.EIO: 1117, errno.EPIPE: 109}


class Fail(Exception):
    """failure of a native function"""

    def __init__(self, code):
        self.code = code


# ------------------------------------------------------------------------------------------------------------------
# Python modules over the native functions


def native(name, *a):
    return getattr(stubs.env(), "w_" + name)(*a)


class PyError(Exception):
    """pywintypes.error"""

    def __init__(self, winerror=None, funcname=None, strerror=None):
        Exception.__init__(self, winerror, funcname, strerror)
        self.winerror, self.funcname, self.strerror = winerror, funcname, strerror


def py(name, *a):
    try:
        return native(name, *a)
    except Fail as e:
        x = PyError(e.code, name, "message")
    raise x


def dword(x):
    """value of a word given as a signed or unsigned number"""
    if core.is_sym(x):
        return x % DW
    return x % DW


class PyHandle(object):
    def __init__(self, env, h):
        self.env, self.h, self.detached = env, h, False

    def symint(self):
        return self.h

    def __int__(self):
        return self.h

    __index__ = __int__

    def Detach(self):
        self.detached = True
        return self.h

    def Close(self):
        self.detached = True
        native("CloseHandle", self.h)


class Plain(object):
    pass


def usual_size(n):
    """sizes of data that do not fit a signed word are not considered"""
    core.CX.assume(n < 2**31)


def sized(n):
    usual_size(n)
    return n


def plain_bytes(data):
    if not isinstance(data, (bytes, bytearray)):
        unsupported("data handed to pywin32")
    usual_size(rawio.size_of(data))
    return data


class PyOverlapped(object):
    def __init__(self):
        stubs.created(self)
        self.Offset = self.OffsetHigh = self.hEvent = 0


def pywin32():
    M = stubs.StubModule
    con, api, fil, typ = M("win32con"), M("win32api"), M("win32file"), M("pywintypes")
    con.LOCKFILE_EXCLUSIVE_LOCK, con.LOCKFILE_FAIL_IMMEDIATELY, con.FILE_FLAG_WRITE_THROUGH = EXCLUSIVE, FAIL_IMMEDIATELY, -WRITE_THROUGH
    api.error = typ.error = PyError
    api.GetLastError = lambda: stubs.env().last_error
    typ.OVERLAPPED, typ.SECURITY_ATTRIBUTES = PyOverlapped, Plain
    fil.__dict__.update(
        FILE_BEGIN=0, FILE_CURRENT=1, FILE_END=2, GENERIC_READ=-GENERIC_READ, GENERIC_WRITE=GENERIC_WRITE, FILE_SHARE_READ=1,
        FILE_SHARE_WRITE=2, FILE_SHARE_DELETE=4, OPEN_EXISTING=OPEN_EXISTING, OPEN_ALWAYS=OPEN_ALWAYS, CREATE_NEW=CREATE_NEW,
        CREATE_ALWAYS=CREATE_ALWAYS, TRUNCATE_EXISTING=TRUNCATE_EXISTING, FILE_ATTRIBUTE_READONLY=ATTR_READONLY,
        FILE_ATTRIBUTE_NORMAL=ATTR_NORMAL)

    def CreateFile(path, access, share, security, disposition, flags, template):
        if not isinstance(path, str):
            raise TypeError("The object is not a PyUnicode object")
        h = py("CreateFile", path, dword(access), share, bool(security is not None and security.bInheritHandle), disposition,
               dword(flags))
        x = PyHandle(stubs.env(), h)
        stubs.env().py_handles.append(x)
        return x

    def signed(*words):
        for w in words:
            stubs.env().cx.check("C23:words of lengths are handed to pywin32 as signed 32-bit numbers",
                                 lambda: And_(w >= -(2**31), w < 2**31))

    def offsets(o):
        for w in (o.Offset, o.OffsetHigh):
            stubs.env().cx.check("C23:words of offsets are unsigned 32-bit numbers", lambda: And_(w >= 0, w < DW))

    def LockFileEx(h, flags, low, high, overlapped):
        signed(low, high)
        offsets(overlapped)
        py("LockFileEx", h, flags, dword(low), dword(high), overlapped.Offset, overlapped.OffsetHigh)

    def UnlockFileEx(h, low, high, overlapped):
        signed(low, high)
        offsets(overlapped)
        py("UnlockFileEx", h, dword(low), dword(high), overlapped.Offset, overlapped.OffsetHigh)

    def SetFilePointer(h, offset, how):
        if not -(2**63) <= offset < 2**63:
            raise OverflowError("int too big to convert")
        return py("SetFilePointerEx", h, offset, how)

    def SetEndOfFile(h):
        py("SetEndOfFile", h)
        return 1

    def info(h):
        i = py("GetFileInformationByHandle", h)
        return (i["dwFileAttributes"], None, None, None, i["dwVolumeSerialNumber"], i["nFileSizeHigh"], i["nFileSizeLow"],
                1, i["nFileIndexHigh"], i["nFileIndexLow"])

    fil.__dict__.update(
        CreateFile=CreateFile, CloseHandle=lambda h: py("CloseHandle", h), FlushFileBuffers=lambda h: py("FlushFileBuffers", h),
        GetFileInformationByHandle=info, LockFileEx=LockFileEx, UnlockFileEx=UnlockFileEx, SetEndOfFile=SetEndOfFile,
        GetFileSize=lambda h: py("GetFileSizeEx", h), SetFilePointer=SetFilePointer,
        WriteFile=lambda h, data, overlapped=None: (0, py("WriteFile", h, plain_bytes(data))),
        ReadFile=lambda h, n, overlapped=None: (0, py("ReadFile", h, sized(n))))
    ct, wt = make_ctypes()
    out = common()
    out["os"].set_blocking = lambda fd, v: native("set_blocking", fd, v)
    out.update({"win32con": con, "win32api": api, "win32file": fil, "pywintypes": typ, "ctypes.wintypes": wt, "ctypes": ct})
    return out


class SysProxy(stubs.StubModule):
    platform = "win32"

    def __getattr__(self, name):
        return getattr(sys, name)


def crt(name, *a):
    """functions of the C runtime raise OSError"""
    try:
        return native(name, *a)
    except Fail as e:
        x = OSError(TO_ERRNO[e.code], "message")
    raise x


def common():
    s = SysProxy("sys")
    m = stubs.StubModule("msvcrt")
    m.open_osfhandle = lambda h, flags: crt("open_osfhandle", h, flags)
    m.get_osfhandle = lambda fd: crt("get_osfhandle", fd)
    return {"sys": s, "msvcrt": m, "os": stubs.make_os()}


class Cell(object):
    """instance of a simple type of ctypes"""

    def __init__(self, kind, value):
        self.kind, self.value = kind, kind.conv(value)

    def symint(self):
        return self.value


class Kind(object):
    """simple type of ctypes"""

    def __init__(self, bits, signed=False, pointer=False):
        self.bits, self.signed, self.pointer = bits, signed, pointer

    def __call__(self, value=0):
        return Cell(self, value)

    def conv(self, v):
        if v is None or self.pointer and type(v) is int and v == 0:
            return None
        if self.pointer and not core.is_sym(v) and not isinstance(v, int):
            return v
        if isinstance(v, Cell):
            v = v.value
        if isinstance(v, bool):
            v = int(v)
        if self.signed:
            lo, hi = -(2 ** (self.bits - 1)), 2 ** (self.bits - 1)
        else:
            lo, hi = 0, 2**self.bits
        if core.is_sym(v) and core.CX.entails(core.zb(And_(v >= lo, v < hi))):
            return v
        v = v % 2**self.bits
        if self.signed:
            v = If_(v >= 2 ** (self.bits - 1), v - 2**self.bits, v)
        return v

    def default(self):
        return None if self.pointer else 0


class Structure(object):
    _fields_ = ()

    def __init__(self, *a):
        stubs.created(self)
        for (n, t), v in zip(self._fields_, list(a) + [None] * len(self._fields_)):
            if v is None:
                v = t() if isinstance(t, type) else t.default()
            setattr(self, n, v)

    def __setattr__(self, n, v):
        for f, t in self._fields_:
            if f == n and isinstance(t, Kind):
                v = t.conv(v)
        object.__setattr__(self, n, v)


class Function(object):
    """function of a DLL"""

    def __init__(self, name):
        self.__dict__.update(name=name, restype=None, argtypes=None)

    def __call__(self, *a):
        if self.argtypes is None or len(a) != len(self.argtypes):
            raise TypeError("this function takes %s arguments" % (self.argtypes and len(self.argtypes)))
        a = [t.conv(v) if isinstance(t, Kind) and not isinstance(v, (Cell, Buffer)) else v for t, v in zip(self.argtypes, a)]
        e = stubs.env()
        try:
            r = getattr(self, "f_" + self.name)(e, *a)
        except Fail as x:
            e.last_error = x.code
            return 0
        return 1 if r is None else r

    def f_GetLastError(self, e):
        return e.last_error

    def f_LockFileEx(self, e, h, flags, reserved, low, high, o):
        e.w_LockFileEx(h, flags, low, high, o.Offset, o.OffsetHigh)

    def f_UnlockFileEx(self, e, h, reserved, low, high, o):
        e.w_UnlockFileEx(h, low, high, o.Offset, o.OffsetHigh)

    def f_CreateFileW(self, e, path, access, share, security, disposition, flags, template):
        if not isinstance(path, str):
            raise TypeError("wrong type")
        try:
            return e.w_CreateFile(path, access, share, bool(security is not None and security.bInheritHandle), disposition, flags)
        except Fail as x:
            e.last_error = x.code
            return 2**64 - 1

    def f_CloseHandle(self, e, h):
        e.w_CloseHandle(h)

    def f_GetFileInformationByHandle(self, e, h, info):
        for k, v in e.w_GetFileInformationByHandle(h).items():
            if isinstance(v, tuple):
                t = getattr(info, k)
                t.dwLowDateTime, t.dwHighDateTime = v
            else:
                setattr(info, k, v)

    def f_GetFileSizeEx(self, e, h, cell):
        cell.value = e.w_GetFileSizeEx(h)

    def f_SetFilePointerEx(self, e, h, offset, cell, how):
        cell.value = e.w_SetFilePointerEx(h, offset, how)

    def f_SetEndOfFile(self, e, h):
        e.w_SetEndOfFile(h)

    def f_FlushFileBuffers(self, e, h):
        e.w_FlushFileBuffers(h)

    def f_WriteFile(self, e, h, buf, n, cell, overlapped):
        cell.value = e.w_WriteFile(h, buf.take(n))

    def f_ReadFile(self, e, h, buf, n, cell, overlapped):
        d = e.w_ReadFile(h, n)
        cell.value = rawio.size_of(d)
        buf.store(d)


class Buffer(object):
    """array of characters: given bytes followed by a zero, or a number of unspecified ones"""

    def __init__(self, init):
        if isinstance(init, bytes):
            usual_size(rawio.size_of(init))
            self.data, self.more = init, 1
        elif isinstance(init, int):
            if init < 0:
                raise ValueError("Array length must be >= 0")
            usual_size(init)
            self.data, self.more = b"" if not core.CX.symbolic else SymBytes(core.EMPTY, bytes), init
        else:
            raise TypeError(init)

    def take(self, n):
        """the first n bytes"""
        if Eq_(n, rawio.size_of(self.data)):
            return self.data
        return self.all()[0:n]

    @property
    def raw(self):
        return Raw(self)

    def all(self):
        c, k = core.CX, self.more
        if not c.symbolic:
            return self.data + bytes(min(k, 10**6))
        rest = c.bytes("rest of the buffer")
        c.assume(Eq_(rawio.size_of(rest), k))
        return self.data + rest

    def store(self, d):
        self.more = self.more + rawio.size_of(self.data) - rawio.size_of(d)
        self.data = d


class Raw(object):
    """content of a buffer"""

    def __init__(self, buf):
        self.buf = buf

    def __getitem__(self, k):
        if type(k) is slice and k.start in (0, None) and k.step is None:
            return self.buf.take(k.stop)
        return self.buf.all()[k]

    def __len__(self):
        return len(self.buf.all())


class Dll(object):
    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = self.__dict__[n] = Function(n)
        return f


def WinError(code=None):
    if code is None:
        code = stubs.env().last_error
    e = OSError(TO_ERRNO[code], "message")
    e.winerror = code
    return e


def make_ctypes():
    ct, wt = stubs.StubModule("ctypes"), stubs.StubModule("ctypes.wintypes")
    pointer = Kind(64, pointer=True)
    for n in "DWORD ULONG".split():
        setattr(wt, n, Kind(32))
    wt.BOOL = wt.LONG = Kind(32, True)
    wt.LARGE_INTEGER = Kind(64, True)
    for n in "HANDLE LPCVOID LPVOID LPCSTR LPCWSTR".split():
        setattr(wt, n, pointer)

    class FILETIME(Structure):
        _fields_ = [("dwLowDateTime", wt.DWORD), ("dwHighDateTime", wt.DWORD)]

    wt.FILETIME = FILETIME
    ct.wintypes = wt
    ct.Structure = Structure
    ct.POINTER = lambda t: "pointer"
    ct.WINFUNCTYPE = ct.CFUNCTYPE = lambda *a: "function"
    ct.byref = lambda x, offset=0: x
    ct.addressof = lambda x: x
    ct.pointer = lambda x: x
    ct.create_string_buffer = Buffer
    ct.WinDLL = ct.CDLL = Dll
    ct.c_int, ct.c_ulong, ct.c_void_p, ct.c_char_p = Kind(32, True), Kind(32), pointer, pointer
    ct.WinError = WinError
    ct.GetLastError = lambda: stubs.env().last_error
    ct.sizeof = lambda x: 8
    return ct, wt


def plain_ctypes():
    out = common()
    out["os"].__dict__.pop("get_blocking", None)  # before Python 3.12
    ct, wt = make_ctypes()
    out.update({"ctypes": ct, "ctypes.wintypes": wt, "blocked": ("win32con", "win32api", "win32file", "pywintypes"),
                "builtins": {"WindowsError": OSError}})
    return out


# ------------------------------------------------------------------------------------------------------------------
# native functions


class Win(object):
    """native functions of Windows, over the same environments as the POSIX contracts"""

    def __init__(self, cx, *a):
        super(Win, self).__init__(cx, *a)
        self.handle = cx.int("handle", lo=1, hi=2**62)
        self.crt = []  # descriptors of the C runtime made from the handle
        self.given_fd = False
        self.py_handles = []
        cx.ghost["last_error"] = 0
        self.nonblocking = False
        self.closed_handles = []
        cx.assume(self.size < 2**63)
        cx.assume(self.pos < 2**63)

    trusted = via_path = False
    last_error = property(lambda self: self.cx.ghost["last_error"], lambda self, v: self.cx.ghost.__setitem__("last_error", v))

    def own(self, fd, what):
        if self.trusted:
            return
        self.cx.check("C05,C06,C07,C15,C17,C20,C23,C25:calls are made on descriptors of the stream's own handle",
                      lambda: Or_(And_(self.given_fd, Eq_(fd, self.fd)), *[Eq_(fd, f) for f in self.crt]), call=what)

    def hown(self, h, what):
        self.cx.check("C05,C06,C07,C15,C17,C20,C23,C25:native calls are made on the stream's own handle",
                      lambda: Eq_(h, self.handle), call=what)

    def via(self, f, *a):
        """a function of the environment, called on the handle"""
        object.__setattr__(self, "trusted", True)
        try:
            return f(self.fd, *a)
        except OSError as e:
            x = Fail(TO_NATIVE[e.errno])
        finally:
            object.__setattr__(self, "trusted", False)
        raise x

    def w_open_osfhandle(self, h, flags):
        self.hown(h, "open_osfhandle")
        if self.via_path and self.cx.flag("no descriptor left", 0.05):
            raise Fail(6)
        fd = self.cx.int("crt descriptor", lo=0)
        self.cx.assume(And_(Not_(Eq_(fd, self.fd)), *[Not_(Eq_(fd, f)) for f in self.crt]))
        self.crt.append(fd)
        self.crt_flags = flags
        return fd

    def w_get_osfhandle(self, fd):
        self.own(fd, "get_osfhandle")
        return self.handle

    def get_blocking(self, fd):
        self.own(fd, "get_blocking")
        if self.mode != FIFO:
            raise OSError(errno.EBADF, "not a pipe")
        return not self.nonblocking

    def w_GetFileSizeEx(self, h):
        self.hown(h, "GetFileSizeEx")
        return self.size

    def w_SetFilePointerEx(self, h, offset, how):
        self.hown(h, "SetFilePointerEx")
        return self.via(self.lseek, offset, how)

    def w_SetEndOfFile(self, h):
        self.hown(h, "SetEndOfFile")
        self.via(self.ftruncate, self.pos)

    def w_FlushFileBuffers(self, h):
        self.hown(h, "FlushFileBuffers")
        self.via(self.fsync)

    def w_ReadFile(self, h, n):
        self.hown(h, "ReadFile")
        try:
            return self.via(self.read, n)
        except Fail as e:
            if e.code == 33:
                e.code = 232
            raise

    def w_WriteFile(self, h, data):
        self.hown(h, "WriteFile")
        try:
            return self.via(self.write, data)
        except Fail as e:
            if e.code == 33:
                return 0
            raise

    def w_CloseHandle(self, h):
        self.hown(h, "CloseHandle")
        self.closed_handles.append(h)


def open_windows(cx, W, env, read, write, closefd=True, append=False):
    cls = W["rsfileio_windows"].RSFileIO
    how = cx.choice("origin", ["handle", "fileno"])
    env.given_fd = how == "fileno"
    st = cls(**{how: env.handle if how == "handle" else env.fd, "read": read, "write": write, "closefd": closefd, "append": append})
    env.stream = st
    return st


def both(props, functions, **kw):
    """one contract for each of the two front ends"""

    def deco(f):
        out = []
        for stub, name, more in ((pywin32, "pywin32", ""), (plain_ctypes, "ctypes", "")):
            def g(cx, W):
                f(cx, W)

            g.__name__ = "windows_%s_%s" % (f.__name__, name)
            fns = " ".join(WIN + x for x in functions.split()) + " " + " ".join("rsbackend.windows_%s.%s" % (name, x) for x in kw.get(
                "front", "").split())
            out.append(contract(props, fns, split=kw.get("split"), stubs=stub, seconds=kw.get("seconds", 200.0))(g))
        ALL.extend(out)
        return f

    return deco


ALL = []
WIN = "rsfileio_windows.RSFileIO."


class WinLockEnv(Win, locking.LockEnv):
    """the range locked, as native words; one attempt at both levels"""

    table_ends = ["granted"]

    def setup(self, timeout, enforced, delay, start, length, shared):
        locking.LockEnv.setup(self, timeout, enforced, delay, start, length, shared)
        self.lockf_ends = ["granted"] if timeout is None else ["granted", "refused"]
        for k in range(4):
            self.cx.ghost["word%d" % k] = -1
        self.cx.assume(And_(start < 2**64, True if length is None else length < 2**64))

    def is_key(self, uid, descriptor):
        return And_(Eq_(uid, self.handle), Eq_(descriptor, self.handle))

    def is_range(self, start, length):
        exact = Eq_(length, self.length) if self.length is not None else False
        return And_(Eq_(start, self.start), If_(self.end is None, start + length >= 2**63 - 1, exact))

    def w_LockFileEx(self, h, flags, low, high, olow, ohigh):
        cx = self.cx
        self.hown(h, "LockFileEx")
        words = (low, high, olow, ohigh)
        cx.check("C23:words handed to the system are unsigned 32-bit numbers",
                 lambda: And_(*[And_(w >= 0, w < DW) for w in words]))
        cx.check("C23:no other flag than those of exclusive and of immediate locks", flags & ~3 == 0)
        cx.check("C23:the native lock is exclusive exactly when the request is",
                 lambda: Iff_(bool(flags & EXCLUSIVE), Not_(self.shared)))
        cx.check("C23:the native lock waits exactly when the request does", bool(flags & FAIL_IMMEDIATELY) == (self.timeout is not None))
        cx.check("C23:the native range is exactly the range requested", lambda: self.is_range(olow + ohigh * DW, low + high * DW))
        for k in range(4):
            cx.ghost["word%d" % k] = words[k]
        self.via(self.lockf, (fcntl.LOCK_EX if flags & EXCLUSIVE else fcntl.LOCK_SH) |
                 (fcntl.LOCK_NB if flags & FAIL_IMMEDIATELY else 0), low + high * DW, olow + ohigh * DW)

    def w_UnlockFileEx(self, h, low, high, olow, ohigh):
        self.hown(h, "UnlockFileEx")
        self.cx.check("C23:the range unlocked is the native range that was locked", lambda: And_(
            *[Eq_(self.cx.ghost["word%d" % k], w) for k, w in enumerate((low, high, olow, ohigh))]))
        self.via(self.lockf, fcntl.LOCK_UN, low + high * DW, olow + ohigh * DW)


@both("C05 C08 C09 C23", "_inner_file_lock _inner_file_unlock _win32_convert_file_range_arguments _inner_tell _inner_size",
      front="LockFileEx UnlockFileEx GetFileSize SetFilePointer", split={"rights": 3, "limit": 2, "shared": 3})
def lock_file(cx, W):
    locking.request(cx, W, False, WinLockEnv, open_windows, ["none", "at once"])


class WinUnlockEnv(WinLockEnv):
    """a lock taken, then released by naming the same bytes"""

    lockf_ends = ["granted"]
    unlocking = False

    def w_UnlockFileEx(self, h, low, high, olow, ohigh):
        cx = self.cx
        cx.check("C23:a native range is unlocked only by unlocking", self.unlocking)
        cx.check("C03,C23:the native range is unlocked once the range is out of the table, which is kept locked",
                 lambda: And_(Not_(cx.ghost["tbl"]), cx.registry.mutex.depth > 0))
        if self.may_fail and cx.flag("unlock fails", 0.2):
            raise Fail(158)
        WinLockEnv.w_UnlockFileEx(self, h, low, high, olow, ohigh)


class WinUnlockReg(locking.LockReg):
    def unregister_file_lock(self, unique_id, handle, length, offset):
        cx, env, g = self.cx, self.env, self.cx.ghost
        self._key(unique_id, handle, "C03,C23")
        cx.check("C03,C23:the range unregistered is the one named", lambda: And_(
            Eq_(offset, env.named[0]), Eq_(locking.end_of(offset, length), env.named[1])))
        if not And_(Eq_(offset, env.start), Eq_(locking.end_of(offset, length), env.end)):
            raise RuntimeError("Trying to unlock a file area not owned by this handle")
        g["tbl"] = False
        return cx.flag("no lock left")


@both("C03 C23", "_inner_file_lock _inner_file_unlock _win32_convert_file_range_arguments _inner_tell _inner_size",
      front="LockFileEx UnlockFileEx GetFileSize SetFilePointer", split={"whence": 3, "named": 3})
def unlock_file(cx, W):
    env = cx.env = WinUnlockEnv(cx)
    cx.registry = reg = WinUnlockReg(cx, env)
    set_options(W)
    st = open_windows(cx, W, env, True, True)
    length = cx.optint("length", lo=0, hi=2**64 - 1)
    offset = cx.optint("offset", lo=0, hi=2**63 - 1)
    start = 0 if offset is None else offset
    env.setup(None, None, 0.1, start, length, False)
    env.lockf_ends = ["granted"]
    st.lock_file(length=length, offset=offset, shared=False)
    g = cx.ghost
    cx.check("C23,C03:the range is locked at both levels", lambda: And_(g["tbl"], g["os"]))
    # the same bytes or others, named from anywhere
    env.pos, env.size = cx.int("later position", lo=0, hi=2**62), cx.int("later size", lo=0, hi=2**62)
    whence = cx.choice("whence", [0, 1, 2])
    base = 0 if whence == 0 else (env.pos if whence == 1 else env.size)
    how = cx.choice("named", ["same", "other length", "any"])
    a = dict(whence=whence, length=length)
    if how == "other length":
        a["length"] = cx.optint("other length", lo=0, hi=2**64 - 1)
    a["offset"] = start - base if how != "any" else cx.int("other offset", lo=0, hi=2**63 - 1)
    cx.assume(a["offset"] >= 0)
    env.named = (base + a["offset"], locking.end_of(base + a["offset"], a["length"]))
    same = And_(Eq_(env.named[0], env.start), Eq_(env.named[1], env.end))
    env.unlocking, env.may_fail = True, True
    exc = None
    try:
        st.unlock_file(**a)
    except Exception as e:
        exc = e
    cx.cover("unlock_file: " + how)
    if isinstance(exc, RuntimeError):
        cx.check("C03,C23:RuntimeError only for a range not held", lambda: Not_(same))
        cx.check("C03,C23:nothing is unlocked when it raises", lambda: And_(g["tbl"], g["os"]))
    elif exc is not None:
        cx.check("C23:errors of the system surface as OSError with their number",
                 isinstance(exc, OSError) and exc.errno == TO_ERRNO[158])
        cx.check("C03,C23:only a range that is held is unlocked", lambda: same)
    else:
        cx.cover("unlock_file: released")
        cx.check("C03,C23:only a range that is held is unlocked", lambda: same)
        cx.check("C03,C23:the range is released at both levels", lambda: And_(Not_(g["tbl"]), Not_(g["os"])))
    cx.check("C03:the table is unlocked afterwards", reg.mutex.depth == 0)



# ------------------------------------------------------------------------------------------------------------------
# opening


class WinOpenEnv(Win, KEnv):
    via_path = True
    request = None
    created = 0
    failed = None

    def fsync(self, fd):
        pass

    def w_CreateFile(self, path, access, share, inherit, disposition, flags):
        cx, r = self.cx, self.request
        ck = lambda what, f: cx.check("C23:" + what, f)
        ck("the file opened is the one named", path == r["name"])
        ck("access rights are those requested", access == (GENERIC_READ if r["read"] else 0) | (
            GENERIC_WRITE if r["write"] or r["append"] else 0))
        ck("the file is fully shared", share == 7)
        ck("the handle is inheritable exactly if requested", inherit == r["inheritable"])
        ck("the file is created exactly as requested", disposition == (
            CREATE_NEW if r["must_create"] else OPEN_EXISTING if r["must_not_create"] else OPEN_ALWAYS))
        ck("data is written through exactly if requested", bool(flags & WRITE_THROUGH) == r["synchronized"])
        ck("a new file is read-only exactly if its owner may not write", bool(flags & ATTR_READONLY) == (not r["permissions"] & 0o200))
        ck("no other attribute", flags & ~(WRITE_THROUGH | ATTR_READONLY | ATTR_NORMAL) == 0)
        self.created += 1
        if cx.flag("CreateFile fails", 0.2):
            self.failed = cx.choice("code", [2, 5, 80, 32])
            raise Fail(self.failed)
        return self.handle


@both("C23 C12", "_inner_create_streams _inner_handle", front="CreateFile")
def open_file(cx, W):
    env = cx.env = WinOpenEnv(cx)
    set_options(W)
    rights = cx.choice("rights", ["r", "w", "rw", "a", "ra"])
    must = cx.choice("must", [None, "must_create", "must_not_create"])
    r = env.request = {
        "path": cx.choice("path", ["some/file", b"some/file"]), "read": "r" in rights, "write": "w" in rights,
        "append": "a" in rights, "must_create": must == "must_create", "must_not_create": must == "must_not_create",
        "synchronized": cx.flag("synchronized"), "inheritable": cx.flag("inheritable"),
        "permissions": cx.choice("permissions", [0o777, 0o555, 0o200, 0o577, 0]),
    }
    a = dict(r)
    r["name"] = "some/file"
    st = exc = None
    try:
        st = W["rsfileio_windows"].RSFileIO(**a)
    except Exception as e:
        exc = e
    cx.check("C23:the file is opened once", env.created == 1)
    if env.failed is not None:
        cx.cover("open: refused by the system")
        cx.check("C23,C12:errors of the system surface as OSError with their number",
                 isinstance(exc, OSError) and exc.errno == TO_ERRNO[env.failed])
    elif exc is not None:
        cx.check("C23,C12:errors of the system surface as OSError with their number", isinstance(exc, OSError))
    else:
        cx.cover("open: done")
        cx.check("C23,C25:the handle of the stream is the one opened", lambda: Eq_(st.handle(), env.handle))
        cx.check("C23:the handle is the stream's to close", lambda: And_(
            len(env.closed_handles) == 0, all([x.detached for x in env.py_handles])))
        cx.check("C23:rights of the stream are those requested", lambda: And_(
            Iff_(st.readable(), a["read"]), Iff_(st.writable(), a["write"] or a["append"])))


# ------------------------------------------------------------------------------------------------------------------
# the whole of rsopen()

WINDOWS_FACTORY = "_inner_create_streams _inner_close_streams"


class WinFactoryEnv(Win, opening.OpenEnv):
    """native handle, opened by path or by another function; faults: native functions that may fail"""

    created = False

    def via(self, f, *a):
        try:
            return Win.via(self, f, *a)
        except KeyError:
            unsupported("native error")

    closed_list = property(lambda self: self.closed)

    def w_CreateFile(self, path, access, share, inherit, disposition, flags):
        if disposition in (CREATE_ALWAYS, TRUNCATE_EXISTING):
            self.erase(0)
        self.nstep("CreateFile")
        self.opened.append(self.handle)
        return self.handle

    def nstep(self, what):
        if self.faults:
            how = self.cx.choice("fault in " + what, [None, "error", "interrupted"], 0.8)
            if how is not None:
                self.faults -= 1
                self.fault = what
                raise Fail(5) if how == "error" else Interruption()

    def step(self, what):
        if self.trusted:
            return self.nstep(what)
        return opening.OpenEnv.step(self, what)

    def w_open_osfhandle(self, h, flags):
        self.nstep("open_osfhandle")
        return Win.w_open_osfhandle(self, h, flags)

    def get_blocking(self, fd):
        self.step("get_blocking")
        return Win.get_blocking(self, fd)

    def close(self, fd):
        self.own(fd, "close")
        self.closed.append(fd)
        self.locked = False

    def w_CloseHandle(self, h):
        Win.w_CloseHandle(self, h)
        self.locked = False

    def w_UnlockFileEx(self, h, *a):
        self.hown(h, "UnlockFileEx")
        self.locked = False

    def lock_file(self, st, *a, **k):
        if self.faults:
            self.step("lock_file")
            self.locked = True
            return None
        return opening.OpenEnv.lock_file(self, st, *a, **k)


class WinOpenReg(opening.OpenReg):
    def remove_file_locks(self, uid, handle):
        env = self.env
        if env.locked and And_(Eq_(uid, env.handle), Eq_(handle, env.handle)):
            return [(handle, False, 0, None)]
        return []

    def remove_unique_id_data(self, uid):
        return []


def released(env):
    """closings of the handle"""
    return env.closed_handles + env.closed


def all_freed(env):
    return And_(*[Or_(*[Eq_(f, c) for c in env.closed_list]) for f in env.crt])


@both("C14", WINDOWS_FACTORY, front="CreateFile CloseHandle", split={"mode": 11, "origin": 7})
def failures(cx, W):
    cx.collect = True
    mode = cx.choice("mode", opening.MODES14)
    origin = cx.choice("origin", ["path", "fileno", "handle", "opener", "fileno kept", "handle kept", "opener kept"])
    closefd = "kept" not in origin
    env = cx.env = WinFactoryEnv(cx, REGULAR)
    cx.registry = WinOpenReg(cx, env)
    set_options(W)
    env.faults = 1
    env.via_path = False
    env.given_fd = "fileno" in origin or "opener" in origin
    bad = cx.choice("bad argument", [None, "encoding", "newline", "errors"], 0.7)
    kw = dict(mode=mode, buffering=cx.choice("buffering", [None, 0, 4096], 0.5), closefd=closefd, thread_safe=cx.flag("thread_safe"))
    if bad is not None:
        kw[bad] = {"encoding": "no-such-encoding", "newline": "bad", "errors": "no-such-handler"}[bad]
    if "opener" in origin:
        def opener(n, m):
            env.step("opener")
            env.opened.append(env.fd)
            return env.fd
        kw["name"], kw["opener"] = "some/path", opener
    elif origin == "path":
        kw["name"] = "some/path"
    elif "fileno" in origin:
        kw["fileno"] = env.fd
    else:
        kw["handle"] = env.handle
    res, exc, _n = opening.call_rsopen(cx, W, **kw)
    if exc is None:
        cx.cover("opened")
        cx.check("C14:a successful opening closes nothing", not released(env))
        return
    cx.cover("failed")
    n = len(released(env))
    cx.check("C14:every handle opened, or descriptor obtained from the opener, is closed once after a failure",
             n <= 1 and (not env.opened or not closefd or n == 1))
    if n:
        cx.check("C14:descriptors made from the handle are freed with it", lambda: all_freed(env))
    if not closefd:
        cx.check("C14:a handle or descriptor given with closefd=False stays open", n == 0)
    cx.check("C14:no lock stays held after a failure", not env.locked)
    cx.kept = None


@both("C13", WINDOWS_FACTORY + " _inner_reduce", front="CreateFile", split={"origin": 4, "locking": 2})
def erasure(cx, W):
    mode = cx.choice("mode", opening.MODES13)
    origin = cx.choice("origin", ["path", "fileno", "handle", "opener"])
    locking_ = cx.choice("locking", [True, False])
    env = cx.env = WinFactoryEnv(cx, REGULAR)
    cx.registry = WinOpenReg(cx, env)
    env.size0 = env.size
    set_options(W)
    env.via_path = False
    env.given_fd = origin in ("fileno", "opener")
    kw = dict(mode=mode + ("b" if mode.lower() == mode else "B"), locking=locking_, buffering=0, thread_safe=False)
    if origin in ("path", "opener"):
        kw["name"] = "some/path"
        if origin == "opener":
            kw["opener"] = lambda n, m: env.fd
    else:
        kw[origin] = env.fd if origin == "fileno" else env.handle
    res, exc, _n = opening.call_rsopen(cx, W, **kw)
    expected = opening.asks_erasure(mode) and origin == "path"
    if not expected:
        cx.check("C13:no erasure unless a path is opened in an erasing mode",
                 lambda: And_(not env.erasures, Eq_(env.size, env.size0)))
    if locking_:
        cx.check("C13:the content is not modified before the lock is held", all(l for _n, l in env.erasures))
        cx.check("C13:one lock request on opening", len(env.lock_calls) == 1)
    if exc is None:
        cx.cover("opened")
        if expected:
            cx.cover("erased")
            cx.check("C13:the file is erased when asked for", lambda: Eq_(env.size, 0))
    else:
        cx.cover("refused")
        cx.check("C13:opening fails only with its lock", env.fault == "lock")
        cx.check("C13:the file keeps its content if the lock is refused", lambda: And_(not env.erasures, Eq_(env.size, env.size0)))


# ------------------------------------------------------------------------------------------------------------------
# data


class WinReadEnv(Win, rawio.ReadEnv):
    read_errors = [errno.EACCES, errno.EBADF, errno.EINVAL]

    def w_ReadFile(self, h, n):
        d = Win.w_ReadFile(self, h, n)
        g = self.cx.ghost
        if self.mode == FIFO and g["eof"] and self.cx.flag("broken pipe"):
            raise Fail(109)
        return d


def win_reader(cx, W):
    return rawio.reader(cx, W, WinReadEnv, open_windows)


@both("C17 C16", "_inner_read", front="ReadFile")
def read(cx, W):
    rawio.reading(cx, W, *win_reader(cx, W))


@both("C17", "_inner_read", front="ReadFile")
def readall(cx, W):
    rawio.reading_all(cx, W, *win_reader(cx, W))


@both("C17", "_inner_read", front="ReadFile", split={"buffer": 5})
def readinto(cx, W):
    kind = cx.choice("buffer", rawio.BUFFERS)
    rawio.reading_into(cx, W, kind, *win_reader(cx, W))


class WinWriteEnv(Win, rawio.WriteEnv):
    write_errors = [errno.EACCES, errno.EBADF, errno.ENOSPC]

    def __init__(self, cx, *a):
        super(WinWriteEnv, self).__init__(cx, *a)
        if self.mode == FIFO:
            self.nonblocking = cx.flag("nonblocking pipe")


@both("C17 C16", "_inner_write _inner_tell _inner_size _inner_extend", front="WriteFile SetFilePointer GetFileSize")
def write(cx, W):
    rawio.writing(cx, W, WinWriteEnv, open_windows)


# ------------------------------------------------------------------------------------------------------------------
# sizes, synchronisation


class WinTruncEnv(Win, rawio.TruncEnv):
    size_errors = [errno.EACCES, errno.EINVAL]
    write_errors = [errno.EACCES, errno.ENOSPC]
    largest = 2**63 - 1


@both("C15 C16", "_inner_reduce _inner_extend _inner_write _inner_seek _inner_tell _inner_size",
      front="SetFilePointer SetEndOfFile GetFileSize WriteFile", split={"zero_fill": 3})
def truncate(cx, W):
    env = cx.env = WinTruncEnv(cx)
    set_options(W)
    read = cx.flag("also readable")
    st = open_windows(cx, W, env, read, True, append=cx.flag("append"))
    rawio.truncation(cx, W, st, env)


@both("C17", "_inner_write _inner_seek _inner_tell _inner_size", front="SetFilePointer GetFileSize WriteFile")
def placement(cx, W):
    """appending is emulated: nothing native places the data"""
    env = cx.env = WinTruncEnv(cx)
    set_options(W)
    append = cx.flag("append")
    st = open_windows(cx, W, env, cx.flag("also readable"), True, append=append)
    g = cx.ghost
    g["pos"] = cx.int("position", lo=0, hi=2**62)
    cx.assume(g["size"] < 2**62)
    size0, pos0, val0 = g["size"], g["pos"], g["val"]
    data = cx.bytes("data")
    cx.assume(rawio.size_of(data) > 0)
    n = exc = None
    try:
        n = st.write(data)
    except Exception as e:
        exc = e
    at = size0 if append else pos0
    if exc is not None:
        cx.check("C17:writing fails only if the system does", env.error is not None)
        cx.check("C17:a failed write changes no byte", lambda: And_(Eq_(g["val"], val0), Eq_(g["size"], size0)))
        return
    cx.cover("data written")
    inside = And_(env.b >= at, env.b < at + n)
    cx.check("C17:data are placed at the position, or at the end of the file when appending",
             lambda: Implies_(inside, Eq_(g["val"], rawio.at(cx, data, env.b - at))))
    cx.check("C17:the other bytes of the file are kept", lambda: Implies_(And_(env.b < size0, Not_(inside)), Eq_(g["val"], val0)))
    cx.check("C17:the file grows exactly as far as the data", lambda: Eq_(g["size"], If_(at + n > size0, at + n, size0)))
    cx.check("C17:the position follows the data", lambda: Eq_(g["pos"], at + n))


@both("C15", "_inner_reduce _inner_extend _inner_seek", front="SetFilePointer")
def truncate_huge(cx, W):
    """sizes that Windows can't represent"""
    env = cx.env = WinTruncEnv(cx)
    set_options(W)
    st = open_windows(cx, W, env, cx.flag("also readable"), True)
    g = cx.ghost
    size0, pos0, val0 = g["size"], g["pos"], g["val"]
    n = cx.int("n", lo=2**63)
    zero = cx.flag("zero_fill")
    exc = None
    try:
        st.truncate(n, zero_fill=zero)
    except Exception as e:
        exc = e
    cx.cover("truncate: huge size")
    if not zero:
        cx.check("C15:a size that can't be represented is refused", isinstance(exc, (OSError, OverflowError)))
    cx.check("C15:nothing is lost when the size is refused", lambda: And_(g["size"] >= size0, Implies_(env.b < size0, Eq_(g["val"], val0))))


class WinSyncEnv(Win, rawio.SyncEnv):
    sync_errors = [errno.EACCES, errno.EINVAL, errno.ENOSPC]


@both("C20", "_inner_sync", front="FlushFileBuffers")
def sync(cx, W):
    rawio.syncing(cx, W, WinSyncEnv, open_windows)


# ------------------------------------------------------------------------------------------------------------------
# identity


class WinWatchEnv(Win, rawio.WatchEnv):
    def w_GetFileInformationByHandle(self, h):
        self.hown(h, "GetFileInformationByHandle")
        return dict(self.info)

    def word(self, name, lo=0):
        return self.cx.int(name, lo=lo, hi=DW - 1)

    def renew(self, name):
        """information on the file, at some time"""
        cx = self.cx
        self.serial, self.low, self.high = self.word(name + "serial"), self.word(name + "index low"), self.word(name + "index high")
        self.atime, self.mtime = cx.int(name + "access time", lo=EPOCH, hi=2**58), cx.int(name + "modification time", lo=EPOCH, hi=2**58)
        self.info = {
            "dwFileAttributes": ATTR_NORMAL, "dwVolumeSerialNumber": self.serial, "nNumberOfLinks": 1,
            "nFileSizeHigh": 0, "nFileSizeLow": 0,  # not reliable
            "nFileIndexHigh": self.high, "nFileIndexLow": self.low, "ftCreationTime": (0, 0),
            "ftLastAccessTime": (self.atime % DW, self.atime // DW), "ftLastWriteTime": (self.mtime % DW, self.mtime // DW),
        }
        # the same times, for the runtime of C
        self.times = (seconds(cx, self.atime), seconds(cx, self.mtime), 0.0)

    def fstat(self, fd):
        s = KEnv.fstat(self, fd)
        s.st_dev = s.st_ino = 0
        return s


EPOCH = 116444736000000000


def seconds(cx, filetime):
    if cx.symbolic:
        return core.SymReal(z3.ToReal(core._num(filetime - EPOCH)) / 10**7)
    return (filetime - EPOCH) / 10**7


@both("C25", "_inner_unique_id _inner_times _inner_size _inner_fileno _inner_handle",
      front="GetFileInformationByHandle GetFileSize")
def identity(cx, W):
    env = cx.env = WinWatchEnv(cx, REGULAR)
    set_options(W)
    rd = cx.flag("readable")
    wr = True if not rd else cx.flag("writable")
    append = cx.flag("append") if wr else False
    st = open_windows(cx, W, env, rd, wr, closefd=cx.flag("closefd"), append=append)
    env.renew("")
    known = And_(env.serial > 0, Or_(env.low > 0, env.high > 0))
    dev, ino = env.serial, env.low + env.high * DW
    first = uid = exc = None
    try:
        first = st.unique_id()
        env.renew("later ")
        uid = st.unique_id()
    except Exception as e:
        exc = e
    if exc is not None:
        cx.cover("identity: not available")
        cx.check("C25:an identifier that is not available is reported as such", lambda: And_(
            isinstance(exc, OSError), Not_(known)))
    else:
        cx.cover("identity")
        ok = lambda u: And_(type(u) is tuple and len(u) == 2, Eq_(u[0], dev), Eq_(u[1], ino))
        cx.check("C25:the identifier is the volume and index of the stream's handle, and never changes",
                 lambda: And_(known, ok(first), ok(uid), ok(st.uid())))
    env.size = cx.int("later size", lo=0, hi=2**62)
    cx.check("C25:the handle reported is that of the stream", lambda: Eq_(st.handle(), env.handle))
    for what in (st.times, st.size, st.fileno, st.handle):
        try:
            what()
            exc = None
        except Exception as e:
            exc = e
        cx.check("C25:an open stream reports its times, size, descriptor and handle", exc is None)
    fd = st.fileno()
    cx.check("C25:the descriptor reported is one of the stream's handle, always the same", lambda: And_(
        Eq_(fd, env.fd) if env.given_fd else Or_(*[Eq_(fd, f) for f in env.crt]), Eq_(st.fileno(), fd)))
    cx.check("C25:the size reported is that of the file", lambda: Eq_(st.size(), env.size))
    t = st.times()
    cx.check("C25:both times are reported", hasattr(t, "access_time") and hasattr(t, "modification_time"))
    near = lambda x, y: And_(x - seconds(cx, y) <= TICK, seconds(cx, y) - x <= TICK)
    cx.check("C25:the times reported are those of the file", lambda: And_(near(t.access_time, env.atime), near(t.modification_time, env.mtime)))


TICK = 1e-5  # rounding of floating point numbers; file times are in tenths of microseconds


# ------------------------------------------------------------------------------------------------------------------
# closing


class WinCloseEnv(Win, KEnv):
    """os: whether the arbitrary byte is locked through this handle"""

    def setup(self):
        self.in_loop = True

    def is_key(self, uid, descriptor):
        return And_(Eq_(uid, self.handle), Eq_(descriptor, self.handle))

    def w_UnlockFileEx(self, h, low, high, olow, ohigh):
        cx, g = self.cx, self.cx.ghost
        self.hown(h, "UnlockFileEx")
        cx.check("C06:nothing is closed before locks are released", len(self.closed_handles) + len(self.closed_list) == 0)
        cx.check("C06:the table is kept locked from the removal of the lock to its release",
                 cx.registry.mutex.depth > 0 and g["removal"] == cx.registry.hold)
        if self.may_fail and cx.flag("unlock fails", 0.1):
            g["failed"] = True
            raise Fail(158)
        start, length = olow + ohigh * DW, low + high * DW
        if And_(self.b >= start, self.b < start + length):
            g["os"] = False

    closed_list = ()

    def close(self, fd):
        self.own(fd, "close")
        self.closed_list = self.closed_list + (fd,)


class WinCloseReg(locking.CloseReg):
    def remove_unique_id_data(self, unique_id):
        return runtime.mk_list([])


@both("C03 C06 C07 C16", "_inner_close_streams _inner_file_unlock _win32_convert_file_range_arguments", front="UnlockFileEx CloseHandle",
      split={"unlock may fail": 2, "closefd": 2, "writable": 2})
def close(cx, W):
    env = cx.env = WinCloseEnv(cx)
    env.may_fail = cx.choice("unlock may fail", [False, True])
    cx.registry = reg = WinCloseReg(cx, env)
    set_options(W)
    closefd = cx.choice("closefd", [False, True])
    pipe = cx.flag("pipe", 0.2)
    if pipe:
        env.mode, env.nonblocking = FIFO, cx.flag("nonblocking")
    st = open_windows(cx, W, env, True, cx.choice("writable", [False, True]), closefd=closefd)
    if cx.flag("descriptor asked for"):
        st.fileno()
    env.setup()
    env.b = b = cx.int("byte", lo=0, hi=2**63 - 1)
    reg.others, reg.left, reg.present = False, True, True
    g = cx.ghost
    g["removed"] = g["failed"] = False
    mine = cx.locks("mine")
    if not cx.symbolic:
        mine = locking.disjoint(mine)
    if pipe:
        mine = runtime.mk_list([])  # pipes can't be locked
    reg.mine = mine
    cx.assume(l_forall(mine, lambda r: And_(r[2] >= 0, r[2] < 2**63, True if r[3] is None else And_(r[3] > r[2], r[3] < 2**63))))
    covered = l_exists(mine, lambda r: in_range(b, r[2], r[3]))
    g["os"] = True if covered else False
    exc = None
    try:
        st.close()
    except Exception as e:
        exc = e
    cx.cover("close")
    cx.check("C07:close raises only if the release of a lock failed", lambda: Or_(exc is None, g["failed"]))
    cx.check("C03,C06,C16:closing releases the locks of the stream in the table", lambda: pipe or g["removed"])
    if exc is None:
        cx.check("C06:the native locks of the stream are released", lambda: Not_(g["os"]))
    n = len(env.closed_handles) + len(env.closed_list)
    cx.check("C07:an owned handle is closed once, another is not", n == (1 if closefd else 0))
    if closefd:
        cx.check("C07:descriptors made from the handle are freed with it", lambda: all_freed(env))
        if env.given_fd:
            cx.check("C07:a descriptor provided by the caller, if owned, is closed with its handle",
                     lambda: len(env.closed_list) == 1 and Eq_(env.closed_list[0], env.fd))
    cx.check("C07,C16:the stream is closed", st.closed)
    cx.check("C06:the table is unlocked afterwards", reg.mutex.depth == 0)
    st.close()
    cx.check("C07:closing twice has no further effect", len(env.closed_handles) + len(env.closed_list) == n)
