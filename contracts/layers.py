"""
Contracts of the layers above raw streams: forwarding classes for buffered and text streams, thread-safe wrapper.

In proofs, the buffers of the standard library are represented by their contract (flush() hands pending writes to the
raw stream or raises; seek() does it too and drops read-ahead data). In concrete runs, the real buffers hold real data.
"""
import _pyio
import errno
import os

from pyvc.contract import contract
from pyvc import core, stubs
from pyvc.core import And_, Eq_, Not_, Or_, unsupported

from .kernel import Interruption, set_options
from .opening import call_rsopen, setup

CLASSES = ["_BufferedIOMixin", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper"]
FAILURES = ["no", "error", "blocks", "interrupted"]


class PushFailed(OSError):
    pass


class LEnv(stubs.DefaultEnv):
    """a raw stream and its buffers"""

    def __init__(self, cx):
        stubs.DefaultEnv.__init__(self, cx)
        self.pend = self.ahead = False  # proofs: state of the buffers
        self.fails = "no"  # what happens when data are pushed to the raw stream
        self.failed = None  # the exception raised so
        self.events = []
        self.content = bytearray()
        self.expected = bytearray()
        self.pos = 0  # concrete runs: position of the raw stream, of its user
        self.user = 0
        self.error = None
        self.lock_raises = self.unlock_raises = None
        self.size_value = None
        self.serial = 0

    def failure(self, push=True):
        if self.fails == "no":
            return None
        e = {"error": OSError(errno.ENOSPC, "No space left on device"),
             "blocks": BlockingIOError(errno.EAGAIN, "would block", 0),
             "interrupted": Interruption()}[self.fails]
        self.failed = type(e)
        return e

    def push(self, st):
        if st.closed:
            raise ValueError("closed")
        if self.pend:
            e = self.failure()
            if e is not None:
                raise e
            self.pend = False

    def clean(self):
        """nothing written is left in buffers"""
        if self.cx.symbolic:
            return not self.pend
        return self.content == self.expected

    def aligned(self):
        """no read-ahead data is left"""
        if self.cx.symbolic:
            return not self.ahead
        return self.pos == self.user


class Lock(object):
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        return None

    def __exit__(self, *a):
        self.env.released("context")


class Raw(_pyio.RawIOBase):
    """the contract of raw streams, as the layers above see it"""

    def __init__(self, env, r, w):
        self.env, self.r, self.w = env, r, w

    name = "f"
    mode = "rb+"

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return 7

    def readinto(self, b):
        e = self.env
        d = bytes(e.content[e.pos:e.pos + len(b)])
        b[:len(d)] = d
        e.pos += len(d)
        return len(d)

    def write(self, b):
        e = self.env
        x = e.failure()
        if x is not None:
            if e.fails == "blocks":
                return None
            raise x
        b = bytes(b)
        n = e.cx.int("accepted", lo=min(1, len(b)), hi=len(b)) if len(b) else 0
        put(e.content, e.pos, b[:n])
        e.pos += n
        return n

    def seek(self, off, whence=0):
        e = self.env
        p = off + (0, e.pos, len(e.content))[whence]
        if p < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        e.pos = p
        return p

    def tell(self):
        return self.env.pos

    def lock_file(self, *a, **k):
        e = self.env
        e.events.append(("lock", a, k))
        e.cx.check("C10:pending writes are pushed out before a lock is requested", e.clean())
        e.cx.check("C10:read-ahead data is dropped before a lock is requested", e.aligned())
        if e.lock_raises is not None:
            raise e.lock_raises
        if not e.cx.symbolic and e.content:
            for i in range(len(e.content)):  # the owner of the lock till now changed everything
                e.content[i] = 65 + (e.content[i] + 7) % 26
            e.expected = bytearray(e.content)
        return Lock(e)

    def unlock_file(self, *a, **k):
        e = self.env
        e.cx.check("C10:position is that of the user when a lock is released", e.aligned())
        e.released("unlock", a, k)
        if e.unlock_raises is not None:
            raise e.unlock_raises

    def size(self):
        e = self.env
        e.events.append(("size",))
        e.cx.check("C20:pending writes are pushed out before the size is read", e.clean())
        return e.size_value

    def sync(self, *a, **k):
        e = self.env
        e.events.append(("sync", a, k))
        e.cx.check("C20:pending writes are pushed out before a synchronisation", e.clean())
        if e.error is not None:
            raise e.error

    def unique_id(self):
        return ("id",)

    def times(self):
        return ("times",)


def released(self, *what):
    self.events.append(("release",) + what)
    self.cx.check("C10:pending writes are pushed out before a lock is released", self.failed is not None or self.clean())


LEnv.released = released


def put(content, pos, data):
    if data:
        if pos > len(content):
            content.extend(bytes(pos - len(content)))
        content[pos:pos + len(data)] = data


def patched(env):
    """during the call, the buffers of the standard library are represented by their contract"""
    saved = []

    def flush(self):
        env.push(self)

    def seek(self, pos, whence=0):
        env.push(self)
        env.ahead = False
        return env.raw.seek(pos, whence)

    for n in CLASSES:
        c = getattr(_pyio, n)
        for m, f in (("flush", flush), ("seek", seek)):
            if m in c.__dict__:
                saved.append((c, m, c.__dict__[m]))
                setattr(c, m, f)

    def undo():
        for c, m, f in saved:
            setattr(c, m, f)

    return undo


KINDS = ["reader", "writer", "random", "text reader", "text writer", "text random"]


def stream(cx, W):
    """a stream of an arbitrary kind with buffered data"""
    env = cx.env = LEnv(cx)
    kind = cx.choice("kind", KINDS)
    m = W["rsfile_streams"]
    r, w = "writer" not in kind, "reader" not in kind
    env.raw = Raw(env, r, w)
    env.kind = kind
    if not cx.symbolic:
        n = cx.int("size", lo=0, hi=40)
        env.content = bytearray(cx.rng.randrange(97, 123) for _ in range(n))
        env.expected = bytearray(env.content)
        env.pos = env.user = cx.int("pos", lo=0, hi=n)
    size = cx.choice("buffer", [8192, 16]) if not cx.symbolic else 8192
    cls = {"reader": m.RSBufferedReader, "writer": m.RSBufferedWriter, "random": m.RSBufferedRandom}[kind.split()[-1]]
    st = cls(env.raw, size)
    if "text" in kind:
        st = m.RSTextIOWrapper(st, "ascii", None, "")
    return env, st


def use(cx, env, st, name):
    """the user reads and writes"""
    r, w = env.raw.r, env.raw.w
    todo = cx.choice(name, [x for x in ("nothing", "write" if w else None, "read" if r else None) if x])
    if cx.symbolic:
        if todo == "write":
            env.pend, env.ahead = True, False
        elif todo == "read":
            if env.pend:
                env.pend = False  # reading pushes pending writes
            env.ahead = True
        return
    env.quiet = True
    f, env.fails = env.fails, "no"
    try:
        if todo == "write":
            n = cx.int("written", lo=1, hi=12)
            d = bytes(33 + (env.serial + i) % 32 for i in range(n))  # unlike what is there
            env.serial += n
            if env.kind == "text random":
                st.seek(st.tell())  # text streams want it between reads and writes
            st.write(d.decode("ascii") if "text" in env.kind else d)
            put(env.expected, env.user, d)
            env.user += n
        elif todo == "read":
            n = cx.int("read", lo=1, hi=12)
            check_read(cx, env, st, n)
    finally:
        env.fails = f


def check_read(cx, env, st, n):
    d = st.read(n)
    d = d.encode("ascii") if isinstance(d, str) else bytes(d)
    good = bytes(env.expected[env.user:env.user + n])
    env.user += len(d)
    return d == good


class Marker(object):
    pass


class BodyError(Exception):
    pass


def arguments(cx):
    """arguments of any value"""
    return cx.choice("arguments", [((), {}), (("T", "L", "O", "W", "S"), {}), ((), {"timeout": "T", "shared": "S"}),
                                   (("T",), {"length": "L", "offset": "O", "whence": "W"})])


def unlock_arguments(cx):
    return cx.choice("arguments", [((), {}), (("L", "O", "W"), {}), ((), {"length": "L", "offset": "O", "whence": "W"}),
                                   (("L",), {"offset": "O"})])


def bind(names, defaults, a, k):
    d = dict(zip(names, defaults))
    d.update(zip(names, a))
    d.update(k)
    return d


LOCK = (["timeout", "length", "offset", "whence", "shared"], [None, None, None, 0, None])
UNLOCK = (["length", "offset", "whence"], [None, 0, 0])


def same_call(spec, a, k, b, l):
    return bind(spec[0], spec[1], a, k) == bind(spec[0], spec[1], b, l)


def run(cx, env, f):
    """(result, exception), under the contract of the buffers"""
    undo = patched(env) if cx.symbolic else (lambda: None)
    try:
        try:
            return f(), None
        except (Exception, Interruption) as e:
            return None, type(e)
    finally:
        undo()


LAYERS = ("rsfile_streams._buffer_forwarder_mixin.%s rsfile_streams._text_forwarder_mixin.%s "
          "rsfile_streams._buffer_forwarder_mixin._reset_buffers rsfile_streams._text_forwarder_mixin._reset_buffers ")


def finish(cx, env, st):
    """nothing fails any more when the stream is dropped"""
    env.fails = "no"
    if cx.symbolic:
        env.pend = False


ERRORS = {"error": BodyError, "interrupted": Interruption, "value error": ValueError}


@contract("C09 C10", LAYERS % ("lock_file", "lock_file") + "rsfile_streams._flushing_lock_remover", split={"kind": 6})
def locked_block(cx, W):
    env, st = stream(cx, W)
    use(cx, env, st, "before")
    before_fails = cx.choice("pushing before", FAILURES, 0.7)
    a, k = arguments(cx)
    env.lock_raises = cx.choice("lock", [None, OSError(errno.EAGAIN, "refused"), RuntimeError("misuse"), Interruption()], 0.8)
    inside_fails = cx.choice("pushing at the end", FAILURES, 0.6)
    how = cx.choice("block", ["normal", "error", "interrupted", "returns", "value error", "closes", "closes and fails"])
    env.fails = before_fails
    state = {}

    def block():
        with st.lock_file(*a, **k):
            state["in"] = True
            env.fails = "no"
            if cx.symbolic:
                use(cx, env, st, "inside")
            else:
                if env.raw.r and cx.flag("reads", 0.7):
                    cx.check("C10:what is read under the lock comes from the file", check_read(cx, env, st, 5))
                use(cx, env, st, "inside")
            env.fails = inside_fails
            state["pend"] = not env.clean()
            if "closes" in how:
                st.close()
            if how == "error":
                raise BodyError()
            if how in ("value error", "closes and fails"):
                raise ValueError("e")
            if how == "interrupted":
                raise Interruption()
            if how == "returns":
                return "value"
        return "end"

    pend0 = not env.clean()
    res, exc = run(cx, env, block)
    lock = [e for e in env.events if e[0] == "lock"]
    rel = [e for e in env.events if e[0] == "release"]
    if pend0 and before_fails != "no":
        cx.cover("pushing fails before")
        cx.check("C10:when pushing out the data fails, the error reaches the caller", exc is not None and exc is env.failed)
        cx.check("C10:no lock is requested when pushing out the data fails", not lock)
        return finish(cx, env, st)
    cx.check("C10:the lock is requested once", len(lock) == 1)
    cx.check("C10:the lock requested is the one asked for", same_call(LOCK, lock[0][1], lock[0][2], a, k))
    if env.lock_raises is not None:
        cx.cover("refused")
        cx.check("C09,C10:a refused lock is reported to the caller", exc is type(env.lock_raises) and "in" not in state)
        cx.check("C09:a refused lock is not released", not rel)
        return finish(cx, env, st)
    if "closes" in how:
        cx.cover(how)
        cx.check("C09:the lock is not released twice", len(rel) <= 1)
        cx.check("C09:an exception in a block that closed the stream is not swallowed", how == "closes" or exc is not None)
        return finish(cx, env, st)
    cx.check("C09:the lock is released once, however the block ends", len(rel) == 1)
    if state.get("pend") and inside_fails != "no":
        cx.cover("pushing fails at the end")
        cx.check("C10:when pushing out the data fails, the error reaches the caller", exc is not None and (
            exc is env.failed or how in ERRORS))
    else:
        cx.cover("released " + how)
        cx.check("C09:an exception in the block reaches the caller",
                 exc is ERRORS.get(how))
        cx.check("C09:the block behaves as without the lock", how in ERRORS or res == (
            "value" if how == "returns" else "end"))
    finish(cx, env, st)


@contract("C10", LAYERS % ("unlock_file", "unlock_file"), split={"kind": 6})
def unlocking(cx, W):
    env, st = stream(cx, W)
    use(cx, env, st, "before")
    env.fails = cx.choice("pushing", FAILURES, 0.6)
    a, k = unlock_arguments(cx)
    env.unlock_raises = cx.choice("unlock", [None, OSError(errno.EIO, "e"), RuntimeError("misuse")], 0.8)
    pend0 = not env.clean()
    res, exc = run(cx, env, lambda: st.unlock_file(*a, **k))
    rel = [e for e in env.events if e[0] == "release"]
    if pend0 and env.fails != "no":
        cx.cover("pushing fails")
        cx.check("C10:when pushing out the data fails, the error reaches the caller", exc is not None and exc is env.failed)
        cx.check("C10:the lock is kept when pushing out the data fails", not rel)
        return finish(cx, env, st)
    cx.check("C10:the range is released once", len(rel) == 1)
    cx.check("C10:the range released is the one asked for", same_call(UNLOCK, rel[0][2], rel[0][3], a, k))
    cx.check("C10:the outcome of the release reaches the caller",
             exc is (None if env.unlock_raises is None else type(env.unlock_raises)))
    cx.cover("released")
    finish(cx, env, st)


@contract("C20", LAYERS % ("size", "size") + "rsfile_streams._buffer_forwarder_mixin.sync rsfile_streams._text_forwarder_mixin.sync",
          split={"kind": 6})
def sizes(cx, W):
    env, st = stream(cx, W)
    use(cx, env, st, "before")
    env.fails = cx.choice("pushing", FAILURES, 0.6)
    what = cx.choice("what", ["size", "sync"])
    env.size_value = cx.int("result", lo=0)
    a, k = cx.choice("arguments", [((), {}), (("M",), {}), (("M", "F"), {}), ((), {"metadata": "M", "full_flush": "F"}),
                                   ((), {"full_flush": "F"})])
    env.error = cx.choice("outcome", [None, OSError(errno.EIO, "e"), Interruption()], 0.7)
    pend0 = not env.clean()
    res, exc = run(cx, env, lambda: st.size() if what == "size" else st.sync(*a, **k))
    done = [e for e in env.events if e[0] == what]
    if pend0 and env.fails != "no":
        cx.cover("pushing fails")
        cx.check("C20:when pushing out the data fails, the error reaches the caller", exc is not None and exc is env.failed)
        return finish(cx, env, st)
    cx.check("C20:the operation is made once on the raw stream", len(done) == 1)
    if what == "size":
        cx.cover("size")
        cx.check("C20:the size is that of the raw stream", lambda: And_(exc is None, Eq_(res, env.size_value)))
    else:
        cx.cover("sync")
        cx.check("C20:the synchronisation is at least as strong as asked",
                 stronger(bind(["metadata", "full_flush"], [True, True], done[0][1], done[0][2]),
                          bind(["metadata", "full_flush"], [True, True], a, k)))
        cx.check("C20:the outcome of the synchronisation reaches the caller", exc is (None if env.error is None else type(env.error)))
    finish(cx, env, st)


def stronger(got, asked):
    return all(got[x] == asked[x] or got[x] is True for x in asked)


# ------------------------------------------------------------------------------------------------------------------


def public_names(W):
    m = W["rsfile_streams"]
    names = {"zorglub"}
    for c in (W["rsfileio_unix"].RSFileIO, m.RSBufferedReader, m.RSBufferedWriter, m.RSBufferedRandom, m.RSTextIOWrapper):
        for n in dir(c):
            if not n.startswith("_") and callable(getattr(c, n)):
                names.add(n)
    return sorted(names)


class Falsy(stubs.StubRLock):
    def __bool__(self):
        return False


class Inner(object):
    """a stream, any method of which does anything"""

    def __init__(self, cx, mutex):
        self.__dict__["d"] = {"cx": cx, "mutex": mutex, "calls": [], "outcome": None}

    def _do(self, name, a, k):
        d = self.d
        w = d["w"]
        d["calls"].append((name, a, k))
        d["cx"].check("C18:a call is made with the mutex held", w.mutex.depth > d["depth"])
        kind, v = d["outcome"]
        if kind == "raise":
            raise v
        return v

    def _checkClosed(self, msg=None):
        pass

    def __getattr__(self, name):
        if name.startswith("__") or name == "not_there":
            raise AttributeError(name)
        return lambda *a, **k: self._do(name, a, k)

    def __iter__(self):
        return self

    def __next__(self):
        return self._do("__next__", (), {})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def wrapped(cx, W):
    cx.env = stubs.DefaultEnv(cx)
    given = cx.choice("mutex", [None, "given", "falsy"])
    inter = cx.flag("interprocess")
    mutex = {None: None, "given": stubs.StubRLock("given"), "falsy": Falsy("given")}[given]
    s = Inner(cx, mutex)
    w = W["rsfile_streams"].RSThreadSafeWrapper(s, mutex=mutex, is_interprocess=inter)
    s.d["w"] = w
    if given is not None:
        cx.check("C18:the mutex is the one provided", w.mutex is mutex)
    else:
        cx.check("C18:a new mutex of the right kind", isinstance(w.mutex, stubs.StubRLock) and w.mutex.depth == 0
                 and w.mutex.kind == ("process" if inter else "thread"))
    depth = cx.choice("held before", [0, 1])
    for _ in range(depth):
        w.mutex.acquire()
    s.d["depth"] = depth
    return s, w, depth


@contract("C18", "rsfile_streams.RSThreadSafeWrapper.__init__ rsfile_streams.RSThreadSafeWrapper.__getattr__ "
          "rsfile_streams.RSThreadSafeWrapper._secure_call", split={"method": 8})
def calls(cx, W):
    names = public_names(W)
    part = cx.choice("method", list(range(8)))
    name = cx.choice("name", names[part::8])
    s, w, depth = wrapped(cx, W)
    for i in range(2):
        a, k = cx.choice("arguments", [((Marker(),), {"x": Marker()}), ((), {}), ((Marker(), Marker()), {})][: 1 if i else 3])
        v = cx.choice("outcome", [("return", Marker()), ("raise", BodyError()), ("return", None), ("raise", Interruption())][: 2 if i else 4])
        s.d["outcome"] = v
        res = exc = None
        try:
            res = getattr(w, name)(*a, **k)
        except (Exception, Interruption) as e:
            exc = e
        cx.cover("call")
        cx.check("C18:the method is called once", len(s.d["calls"]) == i + 1 and s.d["calls"][i][0] == name)
        b, l = s.d["calls"][i][1:]
        cx.check("C18:arguments reach the method unchanged", len(a) == len(b) and all(x is y for x, y in zip(a, b))
                 and set(k) == set(l) and all(k[x] is l[x] for x in k))
        cx.check("C18:the mutex is released when the call returns or raises", w.mutex.depth == depth)
        if v[0] == "return":
            cx.check("C18:the result reaches the caller unchanged", exc is None and res is v[1])
        else:
            cx.check("C18:the exception reaches the caller unchanged", exc is v[1])


@contract("C18", "rsfile_streams.RSThreadSafeWrapper.__getattr__")
def attributes(cx, W):
    """attributes read through the interface are those the stream has at that time"""
    s, w, depth = wrapped(cx, W)
    name = cx.choice("attribute", ["closed", "name", "mode", "encoding", "raw", "line_buffering"])
    for i in range(2):
        v = cx.choice("value", [True, False, None, "text", 7])
        vars(s)[name] = v
        cx.cover("attribute read")
        got = getattr(w, name)
        cx.check("C18:attributes are those of the stream at that time", got is v)
        cx.check("C18:the mutex is released when the call returns or raises", w.mutex.depth == depth)
    missing = False
    try:
        w.not_there
    except AttributeError:
        missing = True
    cx.check("C18:an attribute the stream lacks is lacking", missing)


@contract("C18", "rsfile_streams.RSThreadSafeWrapper.__iter__ rsfile_streams.RSThreadSafeWrapper.__next__ "
          "rsfile_streams.RSThreadSafeWrapper.__enter__ rsfile_streams.RSThreadSafeWrapper.__exit__")
def iteration(cx, W):
    s, w, depth = wrapped(cx, W)
    if cx.flag("with block"):
        s.d["outcome"] = ("return", None)
        exc = None
        raised = cx.choice("block", [None, BodyError()])
        try:
            with w as x:
                cx.check("C18:the stream itself is entered", x is w)
                if raised is not None:
                    raise raised
        except BodyError as e:
            exc = e
        cx.cover("with")
        cx.check("C18:the stream is closed by its with block, once, under the mutex", [c[0] for c in s.d["calls"]] == ["close"])
        cx.check("C18:the exception reaches the caller unchanged", exc is raised)
        cx.check("C18:the mutex is released when the call returns or raises", w.mutex.depth == depth)
        return
    s.d["outcome"] = ("return", None)
    it = iter(w)
    done = 0
    s.d["calls"][:] = []
    for i in range(3):
        v = cx.choice("outcome", [("return", Marker()), ("raise", StopIteration()), ("raise", BodyError())], 0.7)
        s.d["outcome"] = v
        res = exc = None
        try:
            res = next(it)
        except Exception as e:
            exc = e
        cx.cover("step")
        cx.check("C18:one element is read at each step", [c[0] for c in s.d["calls"]] == ["__next__"] * (i + 1))
        cx.check("C18:the mutex is released when the call returns or raises", w.mutex.depth == depth)
        if v[0] == "return":
            cx.check("C18:the result reaches the caller unchanged", exc is None and res is v[1])
        else:
            cx.check("C18:the exception reaches the caller unchanged", type(exc) is type(v[1]))
            break


@contract("C18", "rsfile_factories.rsopen", split={"mode": 10})
def chosen_mutex(cx, W):
    mode = cx.choice("mode", ["r", "rb", "w+b", "a", "R", "RI", "RIB", "RWIB", "AI", "W"])
    ts = cx.flag("thread_safe", 0.8)
    fork = cx.flag("fork")
    given = cx.flag("mutex given") if ts else False
    buffering = cx.choice("buffering", [None, 0, 1, 512]) if "b" in mode.lower() else cx.choice("buffering", [None, 1, 512])
    env = setup(cx, W)
    env.has_fork = fork
    mutex = cx.choice("kind of mutex", [stubs.StubRLock("given"), Falsy("given")]) if given else None
    kw = {} if cx.flag("locking") else {"locking": False}
    res, exc, _n = call_rsopen(cx, W, "some/path", mode, buffering=buffering, thread_safe=ts, mutex=mutex, **kw)
    if env.fault == "lock":
        return
    cx.check("C18:the stream is opened", exc is None)
    cx.check("C18:the thread-safe interface is used when asked for", hasattr(res, "mutex") == ts)
    if not ts:
        cx.cover("not thread-safe")
        return
    cx.cover("thread-safe")
    if given:
        cx.check("C18:the mutex is the one provided", res.mutex is mutex)
    else:
        cx.check("C18:a new mutex, inter-process for inheritable streams where fork exists",
                 res.mutex.kind == ("process" if "I" in mode and fork else "thread"))
        env.closed[:] = []
        other, exc, _n = call_rsopen(cx, W, "some/path", mode, buffering=buffering, thread_safe=ts)
        if exc is None:
            cx.check("C18:each stream has its own mutex", other.mutex is not res.mutex)



class Told(Raw):
    """a raw stream with metadata of its own"""

    def told(self, what):
        e = self.env
        e.events.append(what)
        if e.error is not None:
            raise e.error
        return e.told[what]

    def unique_id(self):
        return self.told("unique_id")

    def times(self):
        return self.told("times")

    def fileno(self):
        return self.told("fileno")

    def handle(self):
        return self.told("handle")

    @property
    def origin(self):
        return self.told("origin")

    @property
    def name(self):
        return self.told("name")

    @property
    def closefd(self):
        return self.told("closefd")


@contract("C25", LAYERS % ("unique_id", "unique_id") + "rsfile_streams._buffer_forwarder_mixin.times rsfile_streams._text_forwarder_mixin.times "
          "rsfile_streams._buffer_forwarder_mixin.__getattr__ rsfile_streams._text_forwarder_mixin.__getattr__ "
          "rsfile_streams.RSThreadSafeWrapper.__getattr__")
def forwarding(cx, W):
    """identity and metadata are those told by the raw stream, whatever is above it"""
    env, st = stream(cx, W)
    env.raw.__class__ = Told
    env.told = {n: Marker() for n in ("unique_id", "times", "fileno", "handle", "origin", "name", "closefd")}
    if cx.flag("thread-safe interface"):
        st = W["rsfile_streams"].RSThreadSafeWrapper(st)
    use(cx, env, getattr(st, "wrapped_stream", st), "before")
    what = cx.choice("what", sorted(env.told))
    failing = cx.flag("fails", 0.2)
    for again in (False, True):
        env.error = OSError(errno.EBADF, "e") if failing else None
        get = (lambda: getattr(st, what)) if what in ("origin", "name", "closefd") else (lambda: getattr(st, what)())
        res, exc = run(cx, env, get)
        env.error = None
        if failing:
            cx.cover("fails")
            cx.check("C25:a failure to get metadata is reported", exc is OSError)
        else:
            cx.cover("told")
            cx.check("C25:the layers above tell the metadata of the raw stream", exc is None and res is env.told[what])
    env.raw.__class__ = Raw
    finish(cx, env, st)

ALL = [locked_block, unlocking, sizes, calls, attributes, iteration, chosen_mutex, forwarding]
for _h in (locked_block, unlocking, sizes):
    _h.assumes = ["contract of the buffers of _pyio: flush() hands everything pending to the raw stream or raises, seek() does "
                  "so and drops read-ahead data (concrete runs use the real buffers)"]
