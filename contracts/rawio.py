"""
Contracts of the operations of raw streams (POSIX) on data and metadata: read, readall, readinto, write, truncate, sync,
rights, identity.

Environment: the kernel.  Data is a sequence of bytes of any length; the content of a file is followed through one byte
at an arbitrary index.
"""
import array
import errno
import fcntl
import os

import z3

from pyvc.contract import contract
from pyvc import core, lists, runtime, stubs
from pyvc.core import And_, Eq_, If_, Iff_, Implies_, Not_, Or_, SymBytes, SymInt, unsupported

from .kernel import DIRECTORY, FIFO, REGULAR, Interruption, KEnv, is_instance_of_file, open_stream, set_options



def size_of(data):
    """number of bytes of a bytes-like object"""
    if type(data) is SymBytes:
        return data.symlen()
    if type(data) is SymArray:
        return data.content.symlen()
    return memoryview(data).nbytes


def raw_bytes(data):
    if type(data) is SymArray:
        return data.content
    if type(data) is SymBytes:
        return data.like(bytes)
    return bytes(data)


def is_prefix_at(data, content, at):
    """data is content[at:]"""
    if type(data) is SymBytes or type(content) is SymBytes or core.is_sym(at):
        c, d = core.seq_of(content), core.seq_of(data)
        return core.SymBool(z3.Concat(z3.SubSeq(c, 0, core._num(at)), d) == c)
    return content[at:] == data


class SymArray(object):
    """array.array, or memoryview with items of several bytes"""

    def __init__(self, content, itemsize, kind):
        self.content, self.itemsize, self.kind = content, itemsize, kind

    @property
    def __class__(self):
        return self.kind

    def symlen(self):
        return self.content.symlen() // self.itemsize

    def __len__(self):
        unsupported("C-level len of symbolic data")

    def tobytes(self):
        return SymBytes(self.content.z, bytes)

    @property
    def nbytes(self):
        return self.content.symlen()

    def cast(self, fmt):
        return SymBytes(self.content.z, memoryview)

    def __getitem__(self, k):
        unsupported("items of symbolic array")

    __iter__ = __eq__ = __getitem__


class SymBuffer(object):
    """writable buffer of unknown size; views share their content (a cell)"""

    def __init__(self, cell, itemsize, kind):
        self.cell, self.itemsize, self.kind = cell, itemsize, kind

    @property
    def __class__(self):
        return self.kind

    def symlen(self):
        n = SymInt(z3.Length(self.cell[0]))
        return n if self.itemsize == 1 else n // self.itemsize

    def __len__(self):
        unsupported("C-level len of symbolic data")

    @property
    def nbytes(self):
        return SymInt(z3.Length(self.cell[0]))

    def symview(self):
        return SymBuffer(self.cell, self.itemsize, memoryview)

    def cast(self, fmt):
        if fmt not in ("B", "b", "c"):
            unsupported("cast to %r" % fmt)
        if self.kind is not memoryview:
            raise AttributeError("cast")
        return SymBuffer(self.cell, 1, memoryview)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    release = lambda self: None

    def tobytes(self):
        return SymBytes(self.cell[0], bytes)

    def __setitem__(self, k, data):
        d = core.seq_of(data)
        if type(k) is not slice or k.step not in (None, 1) or d is None:
            unsupported("such an assignment into a buffer")
        if self.itemsize != 1:
            raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        n = z3.Length(self.cell[0])

        def bound(v, default):
            if v is None:
                return default
            b = core._num(v)
            if core.CX.fork(b < 0):
                return z3.If(n + b < 0, z3.IntVal(0), n + b)
            return z3.If(b > n, n, b)

        lo, hi = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
        hi = z3.If(hi < lo, lo, hi)
        if self.kind is not bytearray and not core.CX.entails(hi - lo == z3.Length(d)):
            if core.CX.fork(hi - lo != z3.Length(d)):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        self.cell[0] = z3.simplify(z3.Concat(z3.SubSeq(self.cell[0], 0, lo), d, z3.SubSeq(self.cell[0], hi, n - hi)))

    def __getitem__(self, k):
        unsupported("reading a symbolic buffer")

    __iter__ = __getitem__


runtime._HANDLERS[memoryview] = (lambda old: lambda f, x: x.symview() if type(x) is SymBuffer else (
    SymArray(x.content, x.itemsize, memoryview) if type(x) is SymArray else old(f, x)))(runtime._HANDLERS[memoryview])


class IOEnv(KEnv):
    """kernel, for one open file"""

    append = False

    def __init__(self, cx, mode=REGULAR):
        KEnv.__init__(self, cx, mode)
        g = cx.ghost
        g["got"] = b"" if not cx.symbolic else SymBytes(core.EMPTY, bytes)
        g["eof"], g["blocked"] = False, False
        g["acc"] = 0
        g["called"] = False
        self.error = None
        self.asked = None
        self.data = None
        self.touched = []
        self.sparse = False

    size = property(lambda self: self.cx.ghost["size"], lambda self, v: self.cx.ghost.__setitem__("size", v))
    pos = property(lambda self: self.cx.ghost["pos"], lambda self, v: self.cx.ghost.__setitem__("pos", v))

    def raises(self, code):
        self.error = code
        raise OSError(code, os.strerror(code))


class ReadEnv(IOEnv):
    read_errors = [errno.EIO, errno.EBADF, errno.EISDIR, errno.EPERM, errno.ENOSPC]

    def read(self, fd, n):
        cx, g = self.cx, self.cx.ghost
        self.own(fd, "read")
        if self.asked is not None:
            cx.check("C17:no more is asked from the kernel than the caller asked for",
                     lambda: n <= self.asked - size_of(g["got"]))
        if n < 0:
            self.raises(errno.EINVAL)
        cx.check("C17:no data is asked for after the end of file or a would-block result",
                 lambda: Not_(Or_(g["eof"], g["blocked"])))
        how = cx.choice("read", ["data", "would block", "error", "interrupted"], 0.75)
        if how == "would block":
            g["blocked"] = True
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        if how == "error":
            self.raises(cx.choice("errno", self.read_errors))
        if how == "interrupted":
            self.error = Interruption()
            raise self.error
        d = cx.bytes("data", maxlen=n)
        g["got"] = g["got"] + d
        g["eof"] = And_(size_of(d) == 0, n > 0)
        return d


def surfaces(cx, env, exc):
    """the error of the kernel, if any, reaches the caller"""
    if env.error is None:
        cx.check("C17:no error without an error of the kernel", exc is None)
    elif isinstance(env.error, Interruption):
        cx.check("C17:interruptions reach the caller", exc is env.error)
    else:
        cx.check("C17:errors of the kernel surface as OSError with their number",
                 isinstance(exc, OSError) and exc.errno == env.error)


def same_data(a, b):
    if a is None or b is None:
        return a is b
    if not isinstance(a, bytes):
        return False
    return Eq_(a, b)


IO = "rsfileio_abstract.RSFileIOAbstract."
UX = "rsfileio_unix.RSFileIO."


def rights_kept(cx, st, read, write):
    cx.check("C16:operations do not change the rights", lambda: And_(Iff_(st.readable(), read), Iff_(st.writable(), write)))


def reader(cx, W, cls=ReadEnv, opened=open_stream):
    env = cx.env = cls(cx, cx.choice("kind", [REGULAR, FIFO]))
    set_options(W)
    write = cx.flag("also writable")
    st = opened(cx, W, env, True, write)
    return env, st, write


@contract("C17 C16", IO + "read " + UX + "_inner_read")
def read(cx, W):
    reading(cx, W, *reader(cx, W))


def reading(cx, W, env, st, write):
    n = cx.int("n", lo=0)
    env.asked = n
    res = exc = None
    try:
        res = st.read(n)
    except (Exception, Interruption) as e:
        exc = e
    g = cx.ghost
    surfaces(cx, env, exc)
    if exc is None:
        if res is None:
            cx.cover("read: would block")
            cx.check("C17:None only when nothing can be read without blocking", lambda: And_(g["blocked"], size_of(g["got"]) == 0))
        else:
            cx.cover("read: data")
            cx.check("C17:what is returned is exactly what the kernel returned", lambda: same_data(res, g["got"]))
            cx.check("C17:never more than asked", lambda: size_of(res) <= n)
            cx.check("C17:None when reading would block", lambda: Or_(Not_(g["blocked"]), size_of(g["got"]) > 0))
            cx.check("C17:empty only at end of file, or when nothing was asked",
                     lambda: Or_(n == 0, g["eof"], size_of(res) > 0))
    rights_kept(cx, st, True, write)


@contract("C17", IO + "readall " + IO + "read " + UX + "_inner_read")
def readall(cx, W):
    reading_all(cx, W, *reader(cx, W))


def reading_all(cx, W, env, st, write):
    how = cx.choice("call", ["readall", "read", "read -n", "read None"])
    res = exc = None
    try:
        if how == "readall":
            res = st.readall()
        elif how == "read":
            res = st.read()
        elif how == "read None":
            res = st.read(None)
        else:
            res = st.read(cx.int("n", hi=-1))
    except (Exception, Interruption) as e:
        exc = e
    g = cx.ghost
    surfaces(cx, env, exc)
    if exc is None:
        cx.check("C17:reading all goes on to the end of file, unless it would block", lambda: Or_(g["eof"], g["blocked"]))
        if res is None:
            cx.cover("readall: would block")
            cx.check("C17:None only when nothing can be read without blocking", lambda: And_(g["blocked"], size_of(g["got"]) == 0))
        else:
            cx.cover("readall: data")
            cx.check("C17:reading all returns the concatenation of everything read", lambda: same_data(res, g["got"]))
            cx.check("C17:None when reading would block", lambda: Or_(Not_(g["blocked"]), size_of(g["got"]) > 0))


BUFFERS = ["bytearray", "memoryview", "array of bytes", "array of items", "memoryview of items"]


def mk_buffer(cx, kind, content):
    item = 4 if "items" in kind else 1
    if cx.symbolic:
        cx.assume(core.SymBool(z3.Length(content.z) % item == 0))
        k = {"b": bytearray, "m": memoryview, "a": array.array}[kind[0]]
        return SymBuffer([content.z], item, k)
    content = content[: len(content) - len(content) % item]
    if kind == "bytearray":
        return bytearray(content)
    if kind == "memoryview":
        return memoryview(bytearray(content))
    a = array.array("B" if item == 1 else "i", content)
    return a if kind.startswith("array") else memoryview(a)


def content_of(buf):
    if type(buf) is SymBuffer:
        return SymBytes(buf.cell[0], bytes)
    return bytes(memoryview(buf).cast("B"))


@contract("C17", IO + "readinto " + UX + "_inner_read", split={"buffer": 5})
def readinto(cx, W):
    kind = cx.choice("buffer", BUFFERS)
    reading_into(cx, W, kind, *reader(cx, W))


def reading_into(cx, W, kind, env, st, write):
    old = cx.bytes("content")
    buf = mk_buffer(cx, kind, old)
    old = content_of(buf)
    env.asked = size_of(old)
    res = exc = None
    try:
        res = st.readinto(buf)
    except (Exception, Interruption) as e:
        exc = e
    g = cx.ghost
    surfaces(cx, env, exc)
    new = content_of(buf)
    if exc is None:
        if res is None:
            cx.cover("readinto: would block")
            cx.check("C17:None only when nothing can be read without blocking", lambda: And_(g["blocked"], size_of(g["got"]) == 0))
            cx.check("C17:the buffer is untouched when reading would block", lambda: Eq_(new, old))
            return
        cx.cover("readinto: data")
        cx.check("C17:None when reading would block", lambda: Or_(Not_(g["blocked"]), size_of(g["got"]) > 0))
        cx.check("C17:the count returned is the number of bytes read", lambda: Eq_(res, size_of(g["got"])))
        if cx.symbolic:
            n = z3.Length(g["got"].z)
            want = SymBytes(z3.Concat(g["got"].z, z3.SubSeq(old.z, n, z3.Length(old.z) - n)), bytes)
        else:
            want = g["got"] + old[len(g["got"]):]
        cx.check("C17:the bytes read are stored at the beginning of the buffer, the rest of it is untouched",
                 lambda: Eq_(new, want))
    else:
        cx.check("C17:the buffer is untouched when reading fails", lambda: Eq_(new, old))


class WriteEnv(IOEnv):
    write_errors = [errno.EIO, errno.EBADF, errno.ENOSPC, errno.EPIPE, errno.EFBIG]

    def write(self, fd, data):
        cx, g = self.cx, self.cx.ghost
        self.own(fd, "write")
        cx.check("C17:the kernel is handed exactly the caller's bytes", lambda: is_prefix_at(raw_bytes(data), self.data, g["acc"]))
        how = cx.choice("write", ["done", "would block", "error", "interrupted"], 0.7)
        if how == "would block":
            g["blocked"] = True
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        if how == "error":
            self.raises(cx.choice("errno", self.write_errors))
        if how == "interrupted":
            self.error = Interruption()
            raise self.error
        n = size_of(data)
        k = cx.int("written", lo=If_(n > 0, 1, 0), hi=n)
        g["acc"] = g["acc"] + k
        return k


SOURCES = ["bytes", "bytearray", "memoryview", "array of bytes", "array of items", "memoryview of items"]


@contract("C17 C16", IO + "write " + UX + "_inner_write")
def write(cx, W):
    writing(cx, W, WriteEnv, open_stream)


def writing(cx, W, make, opened):
    env = cx.env = make(cx, cx.choice("kind", [REGULAR, FIFO]))
    set_options(W)
    read = cx.flag("also readable")
    st = opened(cx, W, env, read, True)
    kind = cx.choice("source", SOURCES)
    content = cx.bytes("content")
    item = 4 if "items" in kind else 1
    if cx.symbolic:
        if item == 1:
            k = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}.get(kind)
            src = SymBytes(content.z, k) if k else SymArray(content, 1, array.array)
        else:
            cx.assume(core.SymBool(z3.Length(content.z) % item == 0))
            src = SymArray(content, item, array.array if kind[0] == "a" else memoryview)
    else:
        content = content[: len(content) - len(content) % item]
        src = {"bytes": lambda: content, "bytearray": lambda: bytearray(content), "memoryview": lambda: memoryview(content),
               "array of bytes": lambda: array.array("b", content)}.get(kind, lambda: array.array("i", content))()
        if kind == "memoryview of items":
            src = memoryview(src)
    env.data = content
    res = exc = None
    try:
        res = st.write(src)
    except (Exception, Interruption) as e:
        exc = e
    g = cx.ghost
    surfaces(cx, env, exc)
    if exc is None:
        if res is None:
            cx.cover("write: would block")
            cx.check("C17:None only when nothing can be written without blocking", lambda: And_(g["blocked"], g["acc"] == 0))
        else:
            cx.cover("write: done")
            cx.check("C17:the count returned is what the kernel accepted", lambda: Eq_(res, g["acc"]))
            cx.check("C17:all bytes are offered to the kernel", lambda: Or_(size_of(content) == 0, g["acc"] > 0))
    rights_kept(cx, st, read, True)


@contract("C17", IO + "write")
def write_text_is_refused(cx, W):
    env = cx.env = WriteEnv(cx)
    set_options(W)
    st = open_stream(cx, W, env, False, True)
    exc = None
    env.data = b""
    try:
        st.write(cx.bytes("text", kind=str))
    except Exception as e:
        exc = e
    cx.cover("write: text")
    cx.check("C17:text is refused by raw streams", isinstance(exc, TypeError))


# ------------------------------------------------------------------------------------------------------------------


def at(cx, data, i):
    """byte of data at index i (known to be in its range)"""
    if type(data) is SymBytes:
        return data.byte(i)
    if core.is_sym(i):
        if len(set(bytes(data))) == 1:  # a run of equal bytes
            return data[0]
        return SymBytes(core.seq_of(data), bytes).byte(i)
    return data[i] if 0 <= i < len(data) else 0


class TruncEnv(IOEnv):
    """the content of the file is followed through the byte at index b; beyond the end of file there are zeros"""

    largest = want = None
    size_errors = [errno.EINVAL, errno.EFBIG, errno.EIO]
    write_errors = [errno.ENOSPC, errno.EIO]

    def __init__(self, cx, mode=REGULAR):
        IOEnv.__init__(self, cx, mode)
        g = cx.ghost
        self.b = cx.int("b", lo=0)
        g["val"] = If_(self.b >= g["size"], 0, cx.int("val", lo=0, hi=255))
        self.native = True
        self.append = False
        self.ops = []
        g["changed"] = False

    def setsize(self, n):
        g = self.cx.ghost
        g["val"] = If_(self.b >= n, 0, g["val"])
        g["size"] = n

    def ftruncate(self, fd, n):
        cx, g = self.cx, self.cx.ghost
        self.own(fd, "ftruncate")
        g["changed"] = True
        cx.check("C15:the kernel is never asked for a negative size", lambda: n >= 0)
        if n > g["size"] and not self.native:
            m = cx.int("native extension reaches", lo=g["size"], hi=n - 1)
            g["size"] = m
            return
        if cx.flag("ftruncate fails", 0.1):
            self.raises(cx.choice("errno", self.size_errors))
        self.setsize(n)

    def write(self, fd, data):
        cx, g = self.cx, self.cx.ghost
        self.own(fd, "write")
        g["changed"] = True
        n = size_of(data)
        cx.check("C15:no empty write", lambda: n > 0)
        if self.want is not None:
            end = (g["size"] if self.append else g["pos"]) + n
            cx.check("C15:nothing is ever written beyond the size requested", lambda: end <= self.want)
        if cx.flag("write fails", 0.1):
            self.raises(cx.choice("errno", self.write_errors))
        k = cx.int("written", lo=1, hi=n)
        p, b = g["size"] if self.append else g["pos"], self.b
        inside = And_(b >= p, b < p + k)
        g["val"] = If_(inside, at(cx, data, b - p), g["val"])
        g["pos"] = p + k
        g["size"] = If_(p + k > g["size"], p + k, g["size"])
        return k


def truncation(cx, W, st, env):
    g = cx.ghost
    size0, pos0, val0 = g["size"], g["pos"], g["val"]
    how = cx.choice("size given", ["size", "position", "negative"])
    zero = cx.choice("zero_fill", ["default", True, False] if env.native else [True])
    kw = {} if zero == "default" else {"zero_fill": zero}
    cx.loop_candidates = [
        ("bytes below the old size are kept", lambda c: Implies_(env.b < size0, Eq_(c["val"], val0))),
        ("bytes added are zero", lambda c: Implies_(env.b >= size0, c["val"] == 0)),
        ("writing at the end", lambda c: Eq_(c["pos"], c["size"])),
    ]
    n = cx.int("n", lo=0, hi=env.largest) if how == "size" else (cx.int("n", hi=-1) if how == "negative" else None)
    env.want = pos0 if n is None else n
    res = exc = None
    try:
        res = st.truncate(n, **kw) if n is not None or cx.flag("explicit None") else st.truncate(**kw)
    except Exception as e:
        exc = e
    if how == "negative":
        cx.cover("truncate: negative")
        cx.check("C15:a negative size is refused", isinstance(exc, OSError) or isinstance(exc, ValueError))
        cx.check("C15:nothing changes when the size is refused", lambda: And_(Not_(g["changed"]), Eq_(g["pos"], pos0)))
        return
    want = pos0 if n is None else n
    if exc is not None:
        cx.check("C15:no failure without a failure of the kernel", env.error is not None)
        cx.check("C15:errors of the kernel reach the caller", isinstance(exc, OSError) and exc.errno == env.error)
        cx.check("C15:bytes below both sizes are kept, even by a failed truncation",
                 lambda: Implies_(And_(env.b < size0, env.b < want), Eq_(g["val"], val0)))
        return
    cx.cover("truncate: done")
    cx.check("C15:errors of the kernel reach the caller", env.error is None)
    cx.check("C15:the file has exactly the size requested", lambda: Eq_(g["size"], want))
    cx.check("C15:the new size is returned", lambda: Eq_(res, want))
    cx.check("C15:the position does not move", lambda: Eq_(g["pos"], pos0))
    cx.check("C15:bytes below both sizes keep their value",
             lambda: Implies_(And_(env.b < size0, env.b < want), Eq_(g["val"], val0)))
    cx.check("C15:bytes added are zero", lambda: Implies_(And_(env.b >= size0, env.b < want), g["val"] == 0))


@contract("C15 C16", IO + "truncate " + UX + "_inner_reduce " + UX + "_inner_extend " + UX + "_inner_size " + UX +
          "_inner_tell " + UX + "_inner_seek", split={"extension": 2})
def truncate(cx, W):
    native = cx.choice("extension", [True, False])
    env = cx.env = TruncEnv(cx)
    env.native = native
    set_options(W)
    read = cx.flag("also readable")
    env.append = cx.flag("append")
    st = open_stream(cx, W, env, read, True, append=env.append)
    truncation(cx, W, st, env)
    rights_kept(cx, st, read, True)


@contract("C15 C16", IO + "truncate")
def truncate_refused(cx, W):
    why = cx.choice("why", ["not writable", "not seekable"])
    env = cx.env = TruncEnv(cx, REGULAR if why == "not writable" else FIFO)
    set_options(W)
    st = open_stream(cx, W, env, True, why != "not writable")
    pos0 = cx.ghost["pos"]
    n = cx.optint("n")
    exc = None
    try:
        st.truncate(n)
    except Exception as e:
        exc = e
    cx.cover("truncate: refused")
    cx.check("C15,C16:truncating a stream that is not writable or not seekable raises", isinstance(exc, (OSError, ValueError)))
    cx.check("C15,C16:nothing is changed by a refused truncation",
             lambda: And_(Not_(cx.ghost["changed"]), Eq_(cx.ghost["pos"], pos0)))


# ------------------------------------------------------------------------------------------------------------------


class SyncEnv(KEnv):
    sync_errors = [errno.EIO, errno.EINVAL, errno.ENOSPC]

    F_FULLFSYNC = 51

    def __init__(self, cx, mode=REGULAR):
        KEnv.__init__(self, cx, mode)
        self.done = set()
        self.last = None

    def native(self, fd, what):
        cx = self.cx
        self.own(fd, what)
        how = cx.choice(what, ["done", "error", "interrupted"])
        if how == "error":
            self.last = cx.choice("errno", self.sync_errors)
            raise OSError(self.last, what)
        if how == "interrupted":
            self.last = Interruption()
            raise self.last
        self.done.add(what)

    def fsync(self, fd):
        self.native(fd, "fsync")

    def fdatasync(self, fd):
        self.native(fd, "fdatasync")

    def fcntl_fcntl(self, fd, op, arg=0):
        if op != self.F_FULLFSYNC:
            unsupported("unexpected fcntl")
        self.native(fd, "fullfsync")
        return 0


@contract("C20", IO + "sync " + UX + "_inner_sync")
def sync(cx, W):
    syncing(cx, W, SyncEnv, open_stream)


def syncing(cx, W, make, opened):
    env = cx.env = make(cx)
    set_options(W)
    rights = cx.choice("rights", [(True, True), (False, True), (True, False)])
    st = opened(cx, W, env, *rights)
    kw = {}
    m, f = cx.choice("metadata", ["default", True, False]), cx.choice("full_flush", ["default", True, False])
    if m != "default":
        kw["metadata"] = m
    if f != "default":
        kw["full_flush"] = f
    with_fdatasync = cx.flag("platform has fdatasync", 0.7)
    mods = [W["rsbackend.unix_stdlib"], W.stubs["os"]] if opened is open_stream else []
    saved = [x.__dict__.get("fdatasync") for x in mods]
    exc = None
    try:
        if not with_fdatasync:
            for x in mods:
                x.__dict__.pop("fdatasync", None)
        try:
            st.sync(**kw)
        except (Exception, Interruption) as e:
            exc = e
    finally:
        for x, v in zip(mods, saved):
            if v is not None:
                x.__dict__["fdatasync"] = v
    if exc is None:
        cx.cover("sync: done")
        strong = {"fsync", "fullfsync"}
        need = strong if kw.get("metadata", True) else strong | {"fdatasync"}
        cx.check("C20:a synchronisation that returns has completed a native one at least as strong as asked",
                 bool(env.done & need))
    else:
        cx.cover("sync: failed")
        cx.check("C20:a failed synchronisation raises the error of the kernel",
                 (exc is env.last) if isinstance(env.last, Interruption) else
                 (isinstance(exc, OSError) and env.last is not None and exc.errno == env.last))


@contract("C20", IO + "sync " + UX + "_inner_sync")
def sync_strongest(cx, W):
    """where every primitive works, the one asked for is used"""
    env = cx.env = SyncEnv(cx)
    set_options(W)
    st = open_stream(cx, W, env, True, True)
    env.native = lambda fd, what: (env.own(fd, what), env.done.add(what))
    metadata, full = cx.choice("metadata", [True, False]), cx.choice("full_flush", [True, False])
    st.sync(metadata=metadata, full_flush=full)
    cx.cover("sync: everything works")
    cx.check("C20:a full flush is used when asked for and available", (not full) or "fullfsync" in env.done)


@contract("C20", IO + "sync " + UX + "_inner_sync")
def sync_fallback(cx, W):
    """primitives that the system or the file does not support are replaced by another one"""
    env = cx.env = SyncEnv(cx)
    set_options(W)
    st = open_stream(cx, W, env, True, True)
    number = cx.choice("error", [errno.EINVAL, errno.ENOTSUP, errno.ENOSYS, errno.ENOTTY])
    lacking = cx.choice("lacking", [("fullfsync",), ("fullfsync", "fdatasync"), ("fdatasync",)])

    def native(fd, what):
        env.own(fd, what)
        if what in lacking:
            raise OSError(number, what)
        env.done.add(what)

    env.native = native
    metadata, full = cx.choice("metadata", [True, False]), cx.choice("full_flush", [True, False])
    exc = None
    try:
        st.sync(metadata=metadata, full_flush=full)
    except Exception as e:
        exc = e
    cx.cover("sync: something is not supported")
    cx.check("C20:a primitive that is not supported is replaced by another one, strong enough",
             exc is None and bool(env.done & ({"fsync", "fullfsync"} if metadata else {"fsync", "fullfsync", "fdatasync"})))


# ------------------------------------------------------------------------------------------------------------------


class WatchEnv(KEnv):
    """records what the code does to the file"""

    def __init__(self, cx, mode=REGULAR):
        KEnv.__init__(self, cx, mode)
        self.ops = []
        self.calls = []

    def own(self, fd, what):
        self.calls.append(what)
        KEnv.own(self, fd, what)

    def op(self, what, fd):
        self.own(fd, what)
        self.ops.append(what)

    def read(self, fd, n):
        self.op("read", fd)
        return b""

    def write(self, fd, data):
        self.op("write", fd)
        return len(data)

    def ftruncate(self, fd, n):
        self.op("ftruncate", fd)

    def fcntl_lockf(self, fd, *a):
        self.op("lockf", fd)

    def fcntl_fcntl(self, fd, *a):
        self.op("fcntl", fd)
        return 0

    def fsync(self, fd):
        self.op("fsync", fd)

    fdatasync = fsync

    def isatty(self, fd):
        self.own(fd, "isatty")
        return False

    def close(self, fd):
        self.own(fd, "close")

    def open(self, path, flags, mode=0o777):
        return self.fd

    def set_inheritable(self, fd, v):
        self.own(fd, "set_inheritable")

    def now(self):
        return 1.0

    def sleep(self, d):
        self.ops.append("sleep")


class QuietReg(object):
    """a table in which nothing is locked"""

    def __init__(self, cx):
        self.cx = cx
        self.mutex = stubs.StubRLock("registry")
        self.calls = []

    def register_file_lock(self, *a):
        self.calls.append("register")
        return True

    def unregister_file_lock(self, *a):
        self.calls.append("unregister")
        return True

    def unique_id_has_locks(self, u):
        return False

    def remove_unique_id_data(self, u):
        return [self.cx.env.fd]

    def try_deleting_unique_id_entry(self, u):
        return True

    def remove_file_locks(self, u, h):
        return []

    def add_unique_id_data(self, u, d):
        pass


READ_OPS = ["read n", "read all", "read None", "read neg", "readall", "readinto", "readline", "readlines", "next", "for",
            "lock shared"]
WRITE_OPS = ["write", "write empty", "writelines", "truncate", "truncate n", "lock exclusive"]
OTHER_OPS = ["fileno", "handle", "unique_id", "uid", "times", "size", "tell", "seek", "seek end", "flush", "sync", "isatty", "seekable",
             "readable", "writable", "lock default", "unlock", "iter", "enter"]


def perform(cx, st, op):
    if op == "read n":
        return st.read(cx.int("n", lo=0))
    if op == "read neg":
        return st.read(cx.int("n", hi=-1))
    if op == "read None":
        return st.read(None)
    if op == "read all":
        return st.read()
    if op == "readinto":
        return st.readinto(bytearray(cx.choice("room", [0, 5])))
    if op == "next":
        return st.__next__()
    if op == "for":
        for _ in st:
            break
        return None
    if op == "iter":
        return iter(st)
    if op == "enter":
        return st.__enter__()
    if op in ("lock shared", "lock exclusive", "lock default"):
        sh = {"shared": True, "exclusive": False, "default": None}[op.split()[1]]
        t = cx.choice("timeout", [None, 0])
        length, offset, whence = cx.optint("length", lo=0), cx.optint("offset", lo=0), cx.choice("whence", [0, 1, 2])
        return st.lock_file(timeout=t, length=length, offset=offset, whence=whence, shared=sh)
    if op == "unlock":
        return st.unlock_file(cx.optint("length", lo=0), cx.int("offset", lo=0))
    if op == "write":
        return st.write(cx.choice("data", [b"abc", bytearray(b"x"), memoryview(b"yz")]))
    if op == "write empty":
        return st.write(b"")
    if op == "writelines":
        return st.writelines([b"ab", b"c"])
    if op == "truncate":
        return st.truncate()
    if op == "truncate n":
        return st.truncate(cx.int("n", lo=0))
    if op == "seek":
        return st.seek(cx.int("offset", lo=0))
    if op == "seek end":
        return st.seek(0, 2)
    if op == "sync":
        return st.sync(cx.choice("metadata", [True, False]), cx.choice("full", [True, False]))
    return getattr(st, op)()


@contract("C16", " ".join(IO + x for x in "read readall readinto write truncate lock_file readable writable".split()), split={"kind": 2})
def rights(cx, W):
    kind = cx.choice("kind", [REGULAR, FIFO])
    env = cx.env = WatchEnv(cx, kind)
    cx.registry = reg = QuietReg(cx)
    set_options(W)
    readable = cx.choice("lacking", ["read", "write"]) == "write"
    st = open_stream(cx, W, env, readable, not readable)
    op = cx.choice("operation", WRITE_OPS if readable else READ_OPS)
    pos = env.pos
    env.ops = []
    exc = None
    try:
        perform(cx, st, op)
    except Exception as e:
        exc = e
    cx.cover("operation without the right")
    cx.check("C16:an operation without the right for it raises", exc is not None and isinstance(exc, (OSError, ValueError)))
    cx.check("C16:an operation without the right for it performs nothing on the file",
             lambda: And_(not env.ops and not reg.calls, Eq_(env.pos, pos)))
    cx.check("C16:rights reported are those given", st.readable() == readable and st.writable() == (not readable))


ALL_OPS = READ_OPS + WRITE_OPS + OTHER_OPS


@contract("C16", " ".join(IO + x for x in (
    "read readall readinto write truncate lock_file unlock_file fileno handle unique_id times size tell seek flush sync isatty "
    "seekable readable writable").split()), split={"rights": 3})
def closed(cx, W):
    rights = cx.choice("rights", ["RW", "R", "W"])
    env = cx.env = WatchEnv(cx, cx.choice("kind", [REGULAR, FIFO]))
    cx.registry = reg = QuietReg(cx)
    set_options(W)
    st = open_stream(cx, W, env, "R" in rights, "W" in rights, closefd=cx.flag("closefd"))
    if cx.flag("identity asked for before"):
        st.unique_id()
    st.close()
    op = cx.choice("operation", ALL_OPS)
    env.calls = []
    exc = None
    try:
        perform(cx, st, op)
    except Exception as e:
        exc = e
    cx.cover("operation on a closed stream")
    cx.check("C16:every operation on a closed stream raises ValueError", isinstance(exc, ValueError))
    cx.check("C16:no operation on a closed stream touches a descriptor", not env.calls and not reg.calls)
    cx.check("C16:a closed stream stays closed", bool(st.closed))


# ------------------------------------------------------------------------------------------------------------------


@contract("C25", " ".join(IO + x for x in "unique_id times size fileno handle __init__".split()) + " " +
          " ".join(UX + x for x in "_inner_unique_id _inner_times _inner_size _inner_fileno _inner_handle".split()))
def identity(cx, W):
    env = cx.env = WatchEnv(cx, cx.choice("kind", [REGULAR, FIFO]))
    cx.registry = QuietReg(cx)
    set_options(W)
    rd = cx.flag("readable")
    how = cx.choice("opened by", ["fileno", "handle", "path"])
    wr = True if not rd else cx.flag("writable")
    opts = {"append": cx.flag("append")} if wr else {}
    if how == "path":
        st = W["rsfileio_unix"].RSFileIO(path=cx.choice("path", ["some/file", b"some/file"]), read=rd, write=wr, **opts)
    else:
        st = W["rsfileio_unix"].RSFileIO(read=rd, write=wr, closefd=cx.flag("closefd"), **{how: env.fd}, **opts)
    env.stream = st
    dev, ino = env.dev, env.ino
    early = cx.flag("asked at once")
    for what in (st.unique_id, st.times, st.size, st.fileno, st.handle)[0 if early else 1:]:
        try:
            what()
            exc = None
        except Exception as e:
            exc = e
        cx.check("C25:an open stream reports its identifier, times, size, descriptor and handle", exc is None)
    first = st.unique_id() if early else None
    # later in its life
    env.size, env.pos = cx.int("later size", lo=0), cx.int("later pos", lo=0)
    at, mt, ct = cx.real("atime", lo=0), cx.real("mtime", lo=0), cx.real("ctime", lo=0)
    env.times = (at, mt, ct)
    env.dev, env.ino = cx.int("later dev", lo=0), cx.int("later ino", lo=0)
    uid = st.unique_id()
    cx.cover("identity")
    ok = lambda u: And_(type(u) is tuple and len(u) == 2, Eq_(u[0], dev), Eq_(u[1], ino))
    cx.check("C25:the identifier is the device and inode of the stream's descriptor, and never changes",
             lambda: And_(ok(uid), ok(st.uid()), True if first is None else ok(first)))
    cx.check("C25:the descriptor and handle reported are those of the stream", lambda: And_(Eq_(st.fileno(), env.fd), Eq_(st.handle(), env.fd)))
    cx.check("C25:the size reported is that of the file", lambda: Eq_(st.size(), env.size))
    t = st.times()
    cx.check("C25:both times are reported", hasattr(t, "access_time") and hasattr(t, "modification_time"))
    cx.check("C25:the times reported are those of the file", lambda: And_(Eq_(t.access_time, at), Eq_(t.modification_time, mt)))


ALL = [read, readall, readinto, write, write_text_is_refused, truncate, truncate_refused, sync, sync_strongest, sync_fallback, rights, closed,
       identity]
