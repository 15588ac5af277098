"""
Contracts of whole streams, as rsopen() makes them: every kind of stream (raw, buffered, text, thread-safe) over the real
raw stream, the system calls being recorded.
"""
import errno
import os

from pyvc.contract import contract
from pyvc import core, runtime, stubs
from pyvc.core import And_, Eq_, Iff_, Implies_, Not_, Or_

from .kernel import REGULAR, Interruption, set_options
from .opening import FACTORY, OpenEnv, OpenReg, call_rsopen
from .rawio import IO, QuietReg, WatchEnv

STREAMS = ("rsfile_streams._buffer_forwarder_mixin.lock_file rsfile_streams._text_forwarder_mixin.lock_file "
           "rsfile_streams._buffer_forwarder_mixin.unlock_file rsfile_streams._text_forwarder_mixin.unlock_file "
           "rsfile_streams._buffer_forwarder_mixin.__getattr__ rsfile_streams._text_forwarder_mixin.__getattr__ "
           "rsfile_streams.RSThreadSafeWrapper.__getattr__ rsfile_streams.RSThreadSafeWrapper.__iter__ "
           "rsfile_streams.RSThreadSafeWrapper.__enter__ rsfile_streams.RSThreadSafeWrapper._secure_call")

KINDS = {"raw": ("B", 0), "buffered": ("B", 16), "text": ("", -1)}


def make(cx, W, rights):
    """a stream of some kind with these rights"""
    env = cx.env = WatchEnv(cx, REGULAR)
    env.size, env.pos = 40, cx.choice("position", [0, 7])
    cx.registry = QuietReg(cx)
    set_options(W)
    kind = cx.choice("kind", sorted(KINDS))
    b, buffering = KINDS[kind]
    ts = cx.flag("thread-safe interface")
    if cx.flag("standard mode", 0.3):
        mode = {"R": "r", "W": "w", "RW": "r+"}[rights] + b.lower()
    else:
        mode = rights + b
    kw = {} if kind != "text" else {"encoding": "ascii"}
    st, exc, _n = call_rsopen(cx, W, mode=mode, fileno=env.fd, locking=False, buffering=buffering, thread_safe=ts,
                              closefd=cx.flag("closefd"), **kw)
    cx.check("C16:a descriptor can be wrapped with such rights", exc is None)
    return env, st, kind, ts


READS = {
    "read n": lambda s, t: s.read(3), "read all": lambda s, t: s.read(), "read neg": lambda s, t: s.read(-1),
    "readline": lambda s, t: s.readline(), "readlines": lambda s, t: s.readlines(), "next": lambda s, t: next(s),
    "for": lambda s, t: [x for x in s], "lock shared": lambda s, t: s.lock_file(timeout=0, shared=True),
}
READS_BYTES = {"readinto": lambda s, t: s.readinto(bytearray(5))}
READS_RAW = {"readall": lambda s, t: s.readall()}
READS_BUFFERED = {"peek": lambda s, t: s.peek(2), "read1": lambda s, t: s.read1(2), "readinto1": lambda s, t: s.readinto1(bytearray(3))}
WRITES = {
    "write": lambda s, t: s.write(t), "writelines": lambda s, t: s.writelines([t, t]), "truncate": lambda s, t: s.truncate(),
    "truncate n": lambda s, t: s.truncate(3), "lock exclusive": lambda s, t: s.lock_file(timeout=0, shared=False),
    "write then flush": lambda s, t: (s.write(t), s.flush()),
}


def enter(s, t):
    with s:
        pass


OTHERS = {
    "fileno": lambda s, t: s.fileno(), "handle": lambda s, t: s.handle(), "unique_id": lambda s, t: s.unique_id(), "times": lambda s, t: s.times(),
    "size": lambda s, t: s.size(), "tell": lambda s, t: s.tell(), "seek": lambda s, t: s.seek(2), "seek end": lambda s, t: s.seek(0, 2),
    "flush": lambda s, t: s.flush(), "sync": lambda s, t: s.sync(), "sync data": lambda s, t: s.sync(metadata=False), "isatty": lambda s, t: s.isatty(),
    "seekable": lambda s, t: s.seekable(), "readable": lambda s, t: s.readable(), "writable": lambda s, t: s.writable(),
    "lock": lambda s, t: s.lock_file(), "lock range": lambda s, t: s.lock_file(0, 5, 3), "unlock": lambda s, t: s.unlock_file(),
    "unlock range": lambda s, t: s.unlock_file(5, 3), "iter": lambda s, t: iter(s), "with": enter,
}


def operations(kind, lacking):
    r, w = dict(READS), dict(WRITES)
    if kind != "text":
        r.update(READS_BYTES)
    if kind == "raw":
        r.update(READS_RAW)
    if kind == "buffered":
        r.update(READS_BUFFERED)
    if lacking == "read":
        return r
    if lacking == "write":
        return w
    return dict(dict(OTHERS, **r), **w)


def refuse(answer, what, rights):
    """a stream without a right may say so even when closed"""
    if answer is False and ("R" if what == "readable" else "W") not in rights:
        raise ValueError("no")
    return answer


def attempt(cx, env, st, op, kind):
    try:
        op(st, "ab" if kind == "text" else b"ab")
    except Exception as e:
        return e
    return None


@contract("C16", STREAMS + " " + " ".join(IO + x for x in "read write truncate lock_file".split()), split={"lacking": 2})
def stack_rights(cx, W):
    lacking = cx.choice("lacking", ["read", "write"])
    env, st, kind, ts = make(cx, W, "W" if lacking == "read" else "R")
    ops = operations(kind, lacking)
    what = cx.choice("operation", sorted(ops))
    env.ops = []
    exc = attempt(cx, env, st, ops[what], kind)
    cx.cover("operation without the right")
    cx.check("C16:an operation without the right for it raises, at every level", isinstance(exc, (OSError, ValueError, AttributeError)))
    cx.check("C16:an operation without the right for it performs nothing on the file, at every level",
             not env.ops and not cx.registry.calls)
    cx.check("C16:rights reported are those given, at every level", st.readable() == (lacking != "read") and st.writable() == (lacking != "write"))
    try:
        st.close()
    except Exception:
        pass
    cx.check("C16:an operation without the right for it performs nothing on the file, at every level",
             not [x for x in env.ops if x in ("read", "write", "ftruncate")])


@contract("C16", STREAMS, split={"rights": 3, "before": 2, "kind": 3})
def stack_closed(cx, W):
    rights = cx.choice("rights", ["RW", "R", "W"])
    used = cx.choice("before", [False, True])
    env, st, kind, ts = make(cx, W, rights)
    ops = operations(kind, None)
    what = cx.choice("operation", sorted(ops))
    if used:
        attempt(cx, env, st, ops[what], kind)  # the same operation, while the stream is open
    st.close()
    env.calls, cx.registry.calls = [], []
    if what in ("readable", "writable"):
        op = ops[what]
        ops[what] = lambda s, t: refuse(op(s, t), what, rights)
    exc = attempt(cx, env, st, ops[what], kind)
    cx.cover("operation on a closed stream")
    cx.check("C16:every operation on a closed stream raises ValueError, at every level", isinstance(exc, ValueError)
             or (what in READS_BUFFERED and "R" not in rights and isinstance(exc, AttributeError)))  # writers do not have these
    cx.check("C16:no operation on a closed stream touches a descriptor, at every level", not env.calls and not cx.registry.calls)
    cx.check("C16:a closed stream stays closed, at every level", bool(st.closed))


ALL = [stack_rights, stack_closed]
