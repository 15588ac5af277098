"""
Contracts of the locking operations of raw streams (POSIX): lock_file, its context manager, unlock_file, close.

Environment: the kernel's lockf and clock, and the contract of the lock table.  Two levels are tracked by ghost state:
tbl (records this request added to the table), os (OS-level lock taken by this request).
"""
import errno
import fcntl
import os

import z3

from pyvc.contract import contract
from pyvc import core, lists, runtime, stubs
from pyvc.core import And_, Eq_, If_, Iff_, Implies_, Not_, Or_, unsupported
from pyvc.lists import l_empty, l_exists, l_forall, l_pairwise, same_value

from .kernel import (
    DIRECTORY, FIFO, REGULAR, Interruption, KEnv, covers, end_of, in_range, is_instance_of_file, open_stream, same_range,
    set_options,
)


class Boom(Exception):
    pass


class LockEnv(KEnv):
    first_only = False
    unlocked = False  # by the block itself
    block_ends = None  # how the block ends, and what it does before
    lockf_ends = ["granted", "refused", "interrupted"]
    table_ends = ["granted", "double", "interrupted", "refused"]
    size = property(lambda self: self.cx.ghost["size"], lambda self, v: self.cx.ghost.__setitem__("size", v))
    pos = property(lambda self: self.cx.ghost["pos"], lambda self, v: self.cx.ghost.__setitem__("pos", v))

    def setup(self, timeout, enforced, delay, start, length, shared):
        cx = self.cx
        g = cx.ghost
        self.timeout, self.enforced, self.delay = timeout, enforced, delay
        self.start, self.length, self.shared = start, length, shared
        self.end = end_of(start, length) if start is not None else None
        self.bounded = timeout is not None or enforced is not None
        self.limit = timeout if timeout is not None else enforced
        g["tbl"], g["os"] = False, False
        g["clk"] = cx.real("entry time", lo=0)
        self.entry = g["clk"]
        g["t0"] = g["clk"]
        g["t0set"] = False
        g["ref"], g["ref_at"] = False, g["clk"]
        g["double"], g["intr"] = False, False
        g["touched"] = False
        self.releasing = False
        self.released = []
        cx.loop_candidates = [
            ("refused before the limit", lambda c: Implies_(c["ref"], c["ref_at"] - c["t0"] < self.limit)
             if self.limit is not None else True),
            ("clock", lambda c: And_(c["clk"] >= c["t0"], c["clk"] >= c["ref_at"], c["ref_at"] >= c["t0"],
                                     c["t0"] >= self.entry)),
            ("not interrupted", lambda c: And_(Not_(c["double"]), Not_(c["intr"]))),
        ]

    def is_range(self, start, length):
        return And_(Eq_(start, self.start), Eq_(length, 0 if self.length is None else self.length))

    def is_key(self, uid, descriptor):
        return And_(is_instance_of_file(self.cx, self, uid), Eq_(descriptor, self.fd))

    def tick(self):
        g = self.cx.ghost
        g["clk"] = g["clk"] + self.cx.real("tick", lo=0)

    def now(self):
        self.tick()
        g = self.cx.ghost
        if not g["t0set"]:
            g["t0"] = g["clk"]
            g["t0set"] = True
        return g["clk"]

    def attempt(self):
        g = self.cx.ghost
        if not g["t0set"]:
            g["t0"] = g["clk"]
            g["t0set"] = True
        g["touched"] = True
        if self.limit is not None:
            self.cx.check("C08,C24:no new attempt after a refusal seen once the time-out has elapsed",
                          lambda: Implies_(g["ref"], g["ref_at"] - g["t0"] < self.limit))

    def refused(self):
        g = self.cx.ghost
        self.tick()
        g["ref"] = True
        g["ref_at"] = g["clk"]
        # meanwhile, others move the shared position and change the size
        self.pos, self.size = self.cx.int("pos after a refusal", lo=0, hi=2**62), self.cx.int("size after a refusal", lo=0, hi=2**62)

    def sleep(self, d):
        cx = self.cx
        cx.check("C08,C24:sleeps at most for the configured delay between two attempts", lambda: And_(d <= self.delay, d >= 0))
        cx.check("C05:does not sleep once granted", lambda: Not_(cx.ghost["os"]))
        self.tick()
        if cx.flag("sleep interrupted", 0.05):
            cx.ghost["intr"] = True
            raise Interruption()

    def lockf(self, fd, op, length=0, start=0, whence=0):
        cx, g = self.cx, self.cx.ghost
        self.own(fd, "lockf")
        base = op & ~fcntl.LOCK_NB
        rng = lambda: And_(self.is_range(start, length), whence == 0)
        if base == fcntl.LOCK_UN:
            if self.releasing:
                cx.check("C09,C06,C05:the OS lock is released on exactly the range locked", rng)
                cx.check("C03,C06:the table entry is removed before, or with, the OS lock", lambda: Not_(g["tbl"]))
                cx.check("C06:the table is kept locked until the OS lock is released", cx.registry.mutex.depth > 0)
                cx.check("C09:released once", lambda: g["os"])
            g["os"] = False
            return None
        cx.check("C09:nothing is locked at exit", not self.releasing)
        self.attempt()
        cx.check("C05:the OS lock asked for is exactly the range requested", rng)
        cx.check("C05:the OS lock has the sharing mode requested",
                 lambda: Iff_(base == fcntl.LOCK_SH, self.shared) if base in (fcntl.LOCK_SH, fcntl.LOCK_EX) else False)
        cx.check("C08,C24:never waits in the kernel when a time-out applies",
                 (not self.bounded) or bool(op & fcntl.LOCK_NB))
        cx.check("C05:the range is registered in the process before the OS lock is asked for", lambda: g["tbl"])
        cx.check("C05:no OS lock asked for twice", lambda: Not_(g["os"]))
        how = cx.choice("lockf", self.lockf_ends)
        if how == "refused":
            self.refused()
            raise OSError(cx.choice("lockf errno", [errno.EAGAIN, errno.EIO]), "refused")
        if how == "interrupted":
            g["intr"] = True
            raise Interruption()
        self.tick()
        g["os"] = True

    fcntl_lockf = lockf


class LockReg(object):
    """the contract of the lock table, for one request"""

    def __init__(self, cx, env):
        self.cx, self.env = cx, env
        self.mutex = stubs.StubRLock("registry")

    def _key(self, uid, handle, props="C05,C25"):
        self.cx.check(props + ":locks are kept under the identity of the file and of the descriptor",
                      lambda: self.env.is_key(uid, handle))

    def register_file_lock(self, unique_id, handle, length, offset, blocking, shared, timeout):
        cx, env, g = self.cx, self.env, self.cx.ghost
        self._key(unique_id, handle)
        cx.check("C09:nothing is locked at exit", not env.releasing)
        env.attempt()
        cx.check("C05:the range registered is exactly the one requested",
                 lambda: And_(Eq_(offset, env.start), Eq_(end_of(offset, length), env.end)))
        cx.check("C05:the sharing mode registered is the one requested", lambda: Iff_(shared, env.shared))
        cx.check("C08,C24:never waits for other threads when a time-out applies", not env.bounded or not blocking)
        cx.check("C05:the range is registered once", lambda: Not_(g["tbl"]))
        if env.first_only:
            g["intr"] = True
            raise Interruption()
        how = cx.choice("table", env.table_ends[:-1] if blocking and "refused" in env.table_ends else env.table_ends)
        if how == "granted":
            env.tick()
            g["tbl"] = True
            return True
        if how == "refused":
            env.refused()
            return False
        if how == "interrupted":
            g["intr"] = True
            raise Interruption()
        g["double"] = True
        raise RuntimeError("Same area of file locked twice by the same file descriptor")

    def unregister_file_lock(self, unique_id, handle, length, offset):
        cx, env, g = self.cx, self.env, self.cx.ghost
        self._key(unique_id, handle)
        rng = And_(Eq_(offset, env.start), Eq_(end_of(offset, length), env.end))
        ok = And_(g["tbl"], rng)
        if env.unlocked:
            cx.check("C09:a range that the block has already released is not mistaken for another", lambda: rng)
            raise RuntimeError("Trying to unlock a file area not owned by this handle")
        cx.check("C05,C09:what is unregistered is the range registered", lambda: ok)
        if env.releasing:
            cx.check("C09:the table and the OS are updated together", self.mutex.depth > 0)
        if not ok:
            raise RuntimeError("Trying to unlock a file area not owned by this handle")
        g["tbl"] = False
        env.released.append((offset, length))
        return cx.flag("no lock left")

    def unique_id_has_locks(self, unique_id):
        return True

    def remove_unique_id_data(self, unique_id):
        return []

    def try_deleting_unique_id_entry(self, unique_id):
        return False

    def remove_file_locks(self, unique_id, handle):
        env, g = self.env, self.cx.ghost
        if not (env.block_ends and g["tbl"]):
            return []
        self._key(unique_id, handle)
        g["tbl"] = False
        return [(handle, env.shared, env.start, env.end)]

    def add_unique_id_data(self, unique_id, data):
        pass


def lock_args(cx, full=True):
    length = cx.optint("length", lo=0)
    offset = cx.optint("offset")
    whence = cx.choice("whence", [0, 1, 2])
    return length, offset, whence


LOCKING_FUNCTIONS = ("rsfileio_abstract.RSFileIOAbstract.lock_file rsfileio_abstract.RSFileIOAbstract._lock_remover.__enter__ rsfileio_abstract.RSFileIOAbstract._lock_remover.__exit__ rsfileio_abstract.RSFileIOAbstract._convert_relative_offset_to_absolute rsfileio_unix.RSFileIO._inner_file_lock rsfileio_unix.RSFileIO._inner_file_unlock rsfileio_unix.RSFileIO._inner_unique_id rsfileio_abstract.RSFileIOAbstract.__init__")


@contract("C05 C08 C09 C24", LOCKING_FUNCTIONS, split={"rights": 3, "limit": 4})
def lock_file(cx, W):
    request(cx, W, False)


@contract("C16 C25", LOCKING_FUNCTIONS)
def lock_file_first_attempt(cx, W):
    request(cx, W, True)


def request(cx, W, first_only, make=LockEnv, opened=open_stream, limits=("none", "time-out", "enforced", "both")):
    rights = cx.choice("rights", ["RW", "R", "W"])
    read, write = "R" in rights, "W" in rights
    env = cx.env = make(cx)
    env.first_only = first_only
    cx.registry = reg = LockReg(cx, env)
    limit = cx.choice("limit", limits if not first_only else ["time-out"])
    timeout = cx.real("timeout", lo=0) if limit in ("time-out", "both") else 0 if limit == "at once" else None
    enforced = cx.real("enforced", lo=0) if limit in ("enforced", "both") else None
    delay = cx.real("delay", lo=0)
    set_options(W, enforced, delay)
    st = opened(cx, W, env, read, write)
    # options set once the stream is opened do not matter
    set_options(W, cx.real("later enforced", lo=0), cx.real("later delay", lo=0))
    length, offset, whence = lock_args(cx)
    shared = cx.choice("shared", [None, True, False])
    base = 0 if whence == 0 else (env.pos if whence == 1 else env.size)
    start = base + (0 if offset is None else offset)
    sh = (not write) if shared is None else shared
    env.setup(timeout, enforced, delay, start, length, sh)
    env.active = True
    g = cx.ghost
    exc, cm = None, None
    try:
        cm = st.lock_file(timeout=timeout, length=length, offset=offset, whence=whence, shared=shared)
    except (Exception, Interruption) as e:
        exc = e
    allowed = (read if sh else write)
    LE = W["rsfile_definitions"].LockingException
    if not allowed:
        cx.cover("lock_file: no right")
        cx.check("C16:a lock without the corresponding right is refused", exc is not None and isinstance(exc, OSError))
        cx.check("C16:nothing is attempted without the corresponding right", lambda: Not_(g["touched"]))
    elif exc is None:
        cx.cover("lock_file: granted")
        cx.check("C05:granted at both levels", lambda: And_(g["tbl"], g["os"]))
        cx.check("C05,C09:a granted request gives a context manager", hasattr(cm, "__enter__") and hasattr(cm, "__exit__"))
        cx.check("C05,C08:no lock before the beginning of the file", lambda: start >= 0)
    else:
        cx.check("C05:a failed request leaves nothing in the table", lambda: Not_(g["tbl"]))
        cx.check("C05:a failed request leaves no OS lock", lambda: Not_(g["os"]))
        if isinstance(exc, Interruption):
            cx.check("C05:spurious interruption", lambda: g["intr"])
        elif isinstance(exc, LE):
            cx.cover("lock_file: timed out")
            cx.check("C08:LockingException only with a time-out, after a refusal", lambda: And_(g["ref"], timeout is not None))
            if timeout is not None:
                cx.check("C08:keeps trying until the time-out has elapsed", lambda: g["clk"] - env.entry >= timeout)
        elif isinstance(exc, RuntimeError):
            cx.check("C08,C24:RuntimeError only for a double lock or the enforced time-out", lambda: Or_(
                g["double"],
                And_(g["ref"], timeout is None, False if enforced is None else g["clk"] - env.entry >= enforced)))
        elif isinstance(exc, OSError):
            cx.check("C08:rejected only before the beginning of the file", lambda: And_(start < 0, Not_(g["touched"])))
        else:
            cx.check("C08:a well-formed request is not rejected as malformed", False)
        cx.check("C05:interruptions reach the caller", lambda: Implies_(g["intr"], isinstance(exc, Interruption)))
        cx.check("C08:a double lock raises RuntimeError", lambda: Implies_(g["double"], type(exc) is RuntimeError))
    if cm is not None and allowed:
        with_block(cx, env, reg, cm, g, st)


def with_block(cx, env, reg, cm, g, st):
    env.pos = cx.int("pos at exit", lo=0)
    env.size = cx.int("size at exit", lo=0)
    does = None
    if env.block_ends:
        how = cx.choice("block raises", list(env.block_ends))
        boom = env.block_ends[how](cx)
        does = cx.choice("block does", [None, "unlocks", "closes"])
    else:
        boom = Boom() if cx.flag("block raises") else None
    env.releasing = True
    err = None
    try:
        with cm:
            cx.check("C09:held inside the block", lambda: And_(g["tbl"], g["os"]))
            if does == "unlocks":
                st.unlock_file(env.length, env.start)
                env.unlocked = True
            elif does == "closes":
                st.close()
            if boom is not None:
                raise boom
    except (Exception, Interruption, GeneratorExit) as e:
        err = e
    cx.cover("lock context manager: left" + (" after: " + does if does else ""))
    if does is None:
        cx.check("C09:the exception of the block reaches the caller unchanged, and no other is raised", err is boom)
    elif boom is not None:
        cx.check("C09:the exception of a block that released the lock itself is not swallowed", err is not None)
    cx.check("C09:released at both levels at the end of the block", lambda: And_(Not_(g["tbl"]), Not_(g["os"])))
    cx.check("C06,C09:the table is unlocked afterwards", reg.mutex.depth == 0)


class BlockEnv(LockEnv):
    lockf_ends = ["granted"]
    table_ends = ["granted"]
    block_ends = {
        "nothing": lambda cx: None,
        "Exception": lambda cx: Boom(),
        "BaseException": lambda cx: Interruption(),
        "GeneratorExit": lambda cx: GeneratorExit(),
        "StopIteration": lambda cx: StopIteration(),
        "OSError": lambda cx: OSError(errno.EIO, "e"),
        "ValueError": lambda cx: ValueError("e"),
        "RuntimeError": lambda cx: RuntimeError("e"),
        "LockingException": lambda cx: cx.W["rsfile_definitions"].LockingException(errno.EAGAIN, "e"),
    }


@contract("C09", LOCKING_FUNCTIONS + " rsfileio_abstract.RSFileIOAbstract.unlock_file rsfileio_abstract.RSFileIOAbstract.close", split={"block raises": 9})
def lock_block(cx, W):
    """every way for the block of a lock to end"""
    cx.W = W
    request(cx, W, False, BlockEnv, limits=("none",))


@contract("C05 C08 C16", "rsfileio_abstract.RSFileIOAbstract.lock_file")
def lock_file_malformed(cx, W):
    env = cx.env = LockEnv(cx, mode=cx.choice("mode", [REGULAR, FIFO]))
    cx.registry = LockReg(cx, env)
    set_options(W)
    st = open_stream(cx, W, env, True, True)
    what = cx.choice("malformed", ["timeout", "length", "offset", "whence", "shared"] if env.mode == REGULAR else ["pipe"])
    a = dict(timeout=None, length=None, offset=None, whence=0, shared=None)
    if what == "timeout":
        a["timeout"] = cx.choice("v", ["5", "neg", "negint", (), 1j, float("-inf")])
        if a["timeout"] == "neg":
            a["timeout"] = cx.real("timeout")
            cx.assume(a["timeout"] < 0)
        elif a["timeout"] == "negint":
            a["timeout"] = cx.int("timeout", hi=-1)
    elif what == "length":
        a["length"] = cx.choice("v", ["5", 1.0, 0.0, "neg", b"", ()])
        if a["length"] == "neg":
            a["length"] = cx.int("length", hi=-1)
    elif what == "offset":
        a["offset"] = cx.choice("v", ["5", 1.0, 0.0, b"", ()])
    elif what == "whence":
        a["whence"] = cx.choice("v", ["w", "0", None, 1.5])
        if a["whence"] == "w":
            a["whence"] = cx.int("whence")
            cx.assume(Or_(a["whence"] < 0, a["whence"] > 2))
    elif what == "shared":
        a["shared"] = cx.choice("v", ["s", "", 2, 0.5, ()])
    env.setup(None, None, 0.1, None, None, True)
    exc = None
    try:
        st.lock_file(**a)
    except (Exception, Interruption) as e:
        exc = e
    cx.cover("lock_file: malformed")
    if what == "pipe":
        cx.check("C08,C16:locking a stream which is not seekable raises", isinstance(exc, (OSError, ValueError)))
    else:
        cx.check("C08:malformed requests are rejected", isinstance(exc, (ValueError, TypeError)))
    cx.check("C08,C05,C16:malformed requests are rejected before any attempt", lambda: Not_(cx.ghost["touched"]))


# ---- unlock_file and close, at the level of one arbitrary byte of the file


class CloseEnv(KEnv):
    """os: whether the arbitrary byte b is locked by this process at OS level"""

    is_key = LockEnv.is_key

    def setup(self):
        self.in_loop = False

    def fcntl_lockf(self, fd, op, length=0, start=0, whence=0):
        cx, g = self.cx, self.cx.ghost
        self.own(fd, "lockf")
        cx.check("C06:only unlocks", op & ~fcntl.LOCK_NB == fcntl.LOCK_UN)
        cx.check("C06:absolute range", whence == 0)
        cx.check("C06:the table is kept locked from the removal of the lock to its release",
                 cx.registry.mutex.depth > 0 and g["removal"] == cx.registry.hold)
        if cx.flag("unlock fails", 0.1) if self.may_fail else False:
            g["failed"] = True
            raise OSError(errno.ENOLCK, "no lock")
        if self.in_loop:
            if covers(self.b, start, length):
                g["os"] = False
        else:
            g["os"] = And_(g["os"], Not_(covers(self.b, start, length)))

    def close(self, fd):
        cx, g = self.cx, self.cx.ghost
        cx.check("C06:no descriptor of the file is closed while locks are held on it", lambda: Not_(cx.registry.left))
        cx.check("C06,C07:descriptors are closed while the table is locked since it was consulted",
                 cx.registry.mutex.depth > 0 and g["query"] == cx.registry.hold)
        g["os"] = False
        self.closed_fds.append(fd)


class HoldLock(stubs.StubRLock):
    """mutex of the table: each outermost acquisition is a new 'hold'"""

    reg = None

    def acquire(self, *a, **k):
        if self.depth == 0:
            self.reg.hold += 1
        return stubs.StubRLock.acquire(self, *a, **k)

    def release(self):
        stubs.StubRLock.release(self)
        if self.depth == 0:
            self.reg.hold += 1


class CloseReg(LockReg):
    def __init__(self, cx, env):
        self.cx, self.env = cx, env
        self.hold = 0
        cx.ghost["removal"] = cx.ghost["query"] = -1
        cx.ghost["taken"] = False
        self.mutex = HoldLock("registry")
        self.mutex.reg = self
        self.own_pending = False
        self.deleted = False
        self.data_taken = False

    def _q(self, uid):
        self.cx.check("C06,C07,C25:the table is consulted for the file of the stream",
                      lambda: is_instance_of_file(self.cx, self.env, uid))
        self.cx.ghost["query"] = self.hold if self.mutex.depth > 0 else -2

    def register_file_lock(self, *a):
        unsupported("unexpected registration")

    def unregister_file_lock(self, unique_id, handle, length, offset):
        cx = self.cx
        self._key(unique_id, handle, "C03,C06,C25")
        cx.check("C03:the range unregistered is the one named",
                 lambda: And_(Eq_(offset, self.asked[0]), same_length(length, self.asked[1])))
        self.cx.ghost["removal"] = self.hold if self.mutex.depth > 0 else -2
        if not self.present:
            return True
        if not same_range(offset, length, *self.rec):
            raise RuntimeError("Trying to unlock a file area not owned by this handle")
        self.cx.ghost["removed"] = True
        return Not_(self.left)

    def remove_file_locks(self, unique_id, handle):
        self._key(unique_id, handle, "C03,C06,C25")
        self.cx.ghost["removal"] = self.hold if self.mutex.depth > 0 else -2
        self.cx.ghost["removed"] = True
        return self.mine.copy()

    def unique_id_has_locks(self, unique_id):
        self._q(unique_id)
        return True if self.left else False

    def remove_unique_id_data(self, unique_id):
        self.cx.check("C06,C07,C25:the table is consulted for the file of the stream",
                      lambda: is_instance_of_file(self.cx, self.env, unique_id))
        g = self.cx.ghost
        l = runtime.mk_list([])
        if not g["taken"]:
            g["taken"] = True
            l = self.pending.copy()
        if self.own_pending:
            l.append(self.env.fd)
        return l

    def add_unique_id_data(self, unique_id, data):
        cx = self.cx
        cx.check("C07:the descriptor recorded as pending is the stream's, for its file",
                 lambda: And_(is_instance_of_file(cx, self.env, unique_id), Eq_(data, self.env.fd)))
        cx.check("C07:the descriptor is recorded as pending once", not self.own_pending)
        self.own_pending = True

    def try_deleting_unique_id_entry(self, unique_id):
        self.cx.check("C04:the entry deleted is that of the file", lambda: is_instance_of_file(self.cx, self.env, unique_id))
        self.deleted = True
        return Not_(self.left)


def byte_setup(cx, env, reg):
    """an arbitrary byte, and which locks cover it"""
    env.setup()
    env.b = cx.int("byte", lo=0)
    reg.others = cx.bool("byte locked by other streams of the process")
    reg.left = cx.choice("left", [True, False])
    if not reg.left:
        cx.assume(Not_(reg.others))
    reg.pending = cx.ints("pending")
    cx.assume(l_pairwise(reg.pending, lambda a, b: Not_(Eq_(a, b))))
    cx.assume(l_forall(reg.pending, lambda a: Not_(Eq_(a, env.fd))))
    cx.ghost["removed"] = False
    cx.ghost["failed"] = False
    cx.ghost["left_checked"] = False


def closed_exactly(cx, env, want):
    """each descriptor of the list is closed, once, and no other one"""
    got = env.closed_fds
    if cx.symbolic:
        x = core.SymInt(cx.mk(cx.fresh_name("any descriptor"), z3.IntSort()))
        same = Iff_(l_exists(got, lambda y: Eq_(x, y)), l_exists(want, lambda y: Eq_(x, y)))
    else:
        same = set(got) == set(want)
    return And_(same, l_pairwise(got, lambda a, b: Not_(Eq_(a, b))))


def same_length(a, b):
    za, zb_ = a is None, b is None
    if za and zb_:
        return True
    if za or zb_:
        return (b if za else a) == 0
    return a == b


KNOWN = "C06:bytes also share-locked by another stream of the process keep their OS lock"


@contract("C03 C04 C06 C07 C25", "rsfileio_abstract.RSFileIOAbstract.unlock_file rsfileio_unix.RSFileIO._inner_file_unlock rsfileio_unix.RSFileIO._purge_pending_related_file_descriptors")
def unlock_file(cx, W):
    env = cx.env = CloseEnv(cx)
    env.may_fail = False
    cx.registry = reg = CloseReg(cx, env)
    read, write, closefd = cx.choice("rights", [(True, True, True), (True, False, False)])
    set_options(W)
    st = open_stream(cx, W, env, read, write, closefd=closefd)
    byte_setup(cx, env, reg)
    reg.present = cx.flag("entry", 0.9)
    g = cx.ghost
    rs = cx.int("lock start", lo=0)
    rl = cx.optint("lock length", lo=1)
    reg.rec = (rs, rl)
    covered = And_(reg.present, covers(env.b, rs, rl))
    rec_shared = cx.bool("lock is shared")
    own_other = cx.bool("byte in another lock of the stream")
    cx.assume(Implies_(own_other, And_(reg.left, Not_(covered))))
    overlap = And_(covered, reg.others)
    cx.assume(Implies_(Not_(rec_shared), Not_(overlap)))
    if not reg.present:
        cx.assume(Not_(reg.left))
    g["os"] = Or_(covered, reg.others, own_other)
    os0 = g["os"]
    length, offset, whence = lock_args(cx)
    if not cx.symbolic and not cx.values and cx.rng.random() < 0.6:
        offset, whence, length = rs, 0, rl
    base = 0 if whence == 0 else (env.pos if whence == 1 else env.size)
    start = base + (0 if offset is None else offset)
    reg.asked = (start, length)
    match = same_range(start, length, rs, rl)
    exc = None
    try:
        st.unlock_file(length=length, offset=offset, whence=whence)
    except Exception as e:
        exc = e
    bad = Not_(offset is None) and offset < 0
    after(cx, env, reg)
    if isinstance(exc, RuntimeError):
        cx.cover("unlock_file: not held")
        cx.check("C03:unlocking raises RuntimeError only for a range not held", lambda: Not_(match))
        cx.check("C03,C06:nothing is unlocked when it raises", lambda: Eq_(g["os"], os0))
        cx.check("C06,C07:nothing is closed when it raises", lambda: l_empty(env.closed_fds))
    elif exc is not None:
        cx.check("C03,C06:rejected only if malformed", lambda: bad and isinstance(exc, (ValueError, TypeError)))
        cx.check("C03,C06:nothing changes when it is rejected", lambda: And_(Eq_(g["os"], os0), Not_(g["removed"])))
        cx.check("C06,C07:nothing is closed when it raises", lambda: l_empty(env.closed_fds))
    elif reg.present:
        cx.cover("unlock_file: released")
        cx.check("C03:a range not held can't be unlocked", lambda: match)
        cx.check("C03,C06:the OS lock of the range, and only it, is released",
                 lambda: Implies_(Not_(overlap), Eq_(g["os"], Or_(reg.others, own_other))))
        if reg.left:
            cx.check(KNOWN, lambda: Implies_(overlap, g["os"]))
        if not reg.left:
            cx.cover("unlock_file: pending descriptors closed")
            cx.check("C07:pending descriptors are closed, once, when the last lock is released",
                     lambda: closed_exactly(cx, env, reg.pending))
        else:
            cx.check("C06,C07:no descriptor is closed as long as locks are left", lambda: l_empty(env.closed_fds))
    cx.check("C04,C06:the table is unlocked afterwards", reg.mutex.depth == 0)
    cx.check("C07:unlocking never gives up the descriptor", not reg.own_pending)


def after(cx, env, reg):
    cx.check("C07:a descriptor that is not owned or not yet released is not closed",
             lambda: l_forall(env.closed_fds, lambda x: Not_(Eq_(x, env.fd))) if not env.may_close else True)


@contract("C03 C04 C06 C07 C16 C25", "rsfileio_abstract.RSFileIOAbstract.close rsfileio_unix.RSFileIO._inner_close_streams rsfileio_unix.RSFileIO._inner_file_unlock rsfileio_unix.RSFileIO._purge_pending_related_file_descriptors", split={"unlock may fail": 2, "closefd": 2, "left": 2})
def close(cx, W):
    env = cx.env = CloseEnv(cx)
    env.may_fail = cx.choice("unlock may fail", [False, True])
    cx.registry = reg = CloseReg(cx, env)
    read, write = True, True
    set_options(W)
    closefd = cx.choice("closefd", [True, False])
    env.may_close = closefd
    st = open_stream(cx, W, env, read, write, closefd=closefd)
    byte_setup(cx, env, reg)
    g = cx.ghost
    mine = cx.locks("mine")
    if not cx.symbolic:
        mine = disjoint(mine)
    reg.mine = mine
    b = env.b
    cx.assume(l_forall(mine, lambda r: And_(r[2] >= 0, True if r[3] is None else r[3] > r[2])))
    env.in_loop = True
    hit = lambda r: in_range(b, r[2], r[3])
    covered = l_exists(mine, hit)
    overlap = And_(covered, reg.others)
    # only possible for shared locks
    cx.assume(Implies_(reg.others, l_forall(mine, lambda r: Implies_(hit(r), r[1]))))
    cx.assume(Implies_(Not_(l_empty(reg.pending)), Or_(reg.left, Not_(l_empty(mine)))))
    g["os"] = True if Or_(covered, reg.others) else False
    nothing_locked = l_empty(mine)
    exc = None
    try:
        st.close()
    except Exception as e:
        exc = e
    cx.check("C07,C06:close raises only if the release of a lock failed", lambda: Or_(exc is None, g["failed"]))
    failed = exc is not None
    cx.check("C03,C06,C16:closing releases the locks of the stream in the table", lambda: g["removed"])
    if not failed:
        cx.cover("close: done")
        cx.check("C06:the OS locks of the stream, and only them, are released",
                 lambda: Implies_(Not_(overlap), Eq_(g["os"], reg.others)))
        if reg.left:
            cx.check(KNOWN, lambda: Implies_(overlap, g["os"]))
    if reg.left:
        cx.cover("close: descriptor kept")
        cx.check("C06,C07:no descriptor is closed as long as locks are left", lambda: l_empty(env.closed_fds))
        cx.check("C07:an owned descriptor is then pending, another is not", reg.own_pending == closefd)
    else:
        cx.cover("close: descriptor closed")
        if closefd:
            want = reg.pending.copy()
            want.append(env.fd)
            cx.check("C07:the owned descriptor, and those pending, are closed once", lambda: closed_exactly(cx, env, want))
            cx.check("C04:the entry of the file is dropped when nothing is left", reg.deleted)
        elif not failed:
            cx.check("C07:pending descriptors are closed, once, when the last lock is released",
                     lambda: closed_exactly(cx, env, reg.pending))
        if not closefd:
            cx.check("C07:a descriptor that is not owned is not closed",
                     lambda: And_(l_forall(env.closed_fds, lambda x: Not_(Eq_(x, env.fd))), not reg.own_pending))
    cx.check("C07,C16:the stream is closed", st.closed)
    cx.check("C04,C06:the table is unlocked afterwards", reg.mutex.depth == 0)


@contract("C07 C16", "rsfileio_abstract.RSFileIOAbstract.close rsfileio_unix.RSFileIO._inner_close_streams")
def close_twice(cx, W):
    env = cx.env = CloseEnv(cx)
    cx.registry = reg = CloseReg(cx, env)
    set_options(W)
    env.may_close = closefd = cx.flag("closefd")
    st = open_stream(cx, W, env, True, True, closefd=closefd)
    byte_setup(cx, env, reg)
    reg.mine = runtime.mk_list([])
    reg.pending = runtime.mk_list([])
    cx.ghost["os"] = reg.others
    st.close()
    n, own, hold, os1 = env.closed_fds.copy(), reg.own_pending, reg.hold, cx.ghost["os"]
    exc = None
    try:
        st.close()
    except Exception as e:
        exc = e
    cx.cover("close_twice")
    cx.check("C07:closing twice has no further effect", lambda: And_(
        exc is None, len(env.closed_fds) == len(n), reg.own_pending == own, Eq_(cx.ghost["os"], os1)))
    cx.check("C07:closing twice does not consult the table", reg.hold == hold)
    cx.check("C16:the stream stays closed", st.closed)


def disjoint(ls):
    out = []
    for r in sorted(ls, key=lambda r: r[2]):
        if r[3] is not None and r[3] <= r[2]:
            continue
        if out and (out[-1][3] is None or out[-1][3] > r[2]):
            continue
        out.append(r)
    return out


ALL = [lock_file, lock_block, lock_file_first_attempt, lock_file_malformed, unlock_file, close, close_twice]
