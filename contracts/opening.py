"""
Contracts of the opening of streams (POSIX): mode language, native open request, erasure under lock, failures.

A mode is an arbitrary string, of which is known which of the characters of the mode languages it contains, whether it
contains others (and of which case), and whether one is repeated; the order of its characters is unknown.
"""
import errno
import os

import z3

from pyvc.contract import contract
from pyvc import core, lists, runtime, stubs
from pyvc.core import And_, Eq_, If_, Iff_, Implies_, Not_, Or_, Sym, SymBool, SymInt, unsupported, zb

from .kernel import DIRECTORY, FIFO, REGULAR, Interruption, KEnv, is_instance_of_file, set_options

STD, ADV = "xrwa+bt", "RWA+-CNSIEBT"
KNOWN_CHARS = sorted(set(STD + ADV + "U"))


class SymSet(Sym):
    """set of characters"""

    __slots__ = ("p", "other")

    def __init__(self, p, other):
        self.p, self.other = p, other  # character -> condition; condition that there are other characters
        self.z = None

    @property
    def __class__(self):
        return set

    def symset(self):
        return self

    def any(self):
        return z3.Or(list(self.p.values()) + [self.other])

    def __bool__(self):
        return core.CX.fork(self.any())

    def symlen(self):
        c = core.CX
        n = c.mk(c.fresh_name("nothers"), z3.IntSort())
        c.assume_z(z3.And(n >= 0, (n > 0) == self.other))
        return SymInt(z3.Sum([z3.If(x, 1, 0) for x in self.p.values()]) + n)

    def __len__(self):
        unsupported("C-level len of a symbolic set")

    def __contains__(self, c):
        if not isinstance(c, str) or core.is_sym(c):
            unsupported("membership of such a value")
        if len(c) != 1:
            return False
        if c in self.p:
            return core.CX.fork(self.p[c])
        unsupported("membership of the character %r" % c)

    def _set(self, o):
        if type(o) is SymSet:
            return o.p, o.other
        o = set(o)
        extra = [x for x in o if x not in KNOWN_CHARS]
        if extra:
            unsupported("set of unforeseen characters")
        return {x: z3.BoolVal(True) for x in o}, z3.BoolVal(False)

    def __sub__(self, o):
        p, other = self._set(o)
        return SymSet({k: z3.simplify(z3.And(v, z3.Not(p.get(k, z3.BoolVal(False))))) for k, v in self.p.items()},
                      z3.simplify(z3.And(self.other, z3.Not(other))))

    difference = __sub__

    def __rsub__(self, o):
        p, other = self._set(o)
        return SymSet({k: z3.And(v, z3.Not(self.p.get(k, z3.BoolVal(False)))) for k, v in p.items()}, other)

    def __and__(self, o):
        p, other = self._set(o)
        return SymSet({k: z3.And(v, p[k]) for k, v in self.p.items() if k in p}, z3.And(self.other, other))

    __rand__ = intersection = __and__

    def __or__(self, o):
        p, other = self._set(o)
        return SymSet({k: z3.Or(self.p.get(k, z3.BoolVal(False)), p.get(k, z3.BoolVal(False))) for k in set(self.p) | set(p)},
                      z3.Or(self.other, other))

    __ror__ = union = __or__

    def issubset(self, o):
        return SymBool(z3.Not((self - o).any()))

    __le__ = issubset

    def issuperset(self, o):
        p, other = self._set(o)
        return SymBool(z3.And([z3.Implies(v, self.p.get(k, z3.BoolVal(False))) for k, v in p.items()] + [z3.Implies(other, self.other)]))

    __ge__ = issuperset

    def isdisjoint(self, o):
        return SymBool(z3.Not((self & o).any()))

    def __eq__(self, o):
        p, other = self._set(o)
        return SymBool(z3.And([self.p.get(k, z3.BoolVal(False)) == p.get(k, z3.BoolVal(False)) for k in set(self.p) | set(p)]
                              + [self.other == other]))

    def __ne__(self, o):
        return core.Not_(self == o)

    __hash__ = Sym.__hash__

    def __iter__(self):
        """the known characters, one by one"""
        for k in sorted(self.p):
            if core.CX.fork(self.p[k]):
                yield k
        if core.CX.fork(self.other):
            unsupported("enumeration of unknown characters")

    def copy(self):
        return self


class Cased(object):
    """the text in another case"""

    def __init__(self, text, how):
        self.text, self.how = text, how

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is SymStr and o is self.text:
            return SymBool(z3.Not(o.upper_part() if self.how == "lower" else o.lower_part()))
        unsupported("comparison of a text in another case")

    def __ne__(self, o):
        return core.Not_(self == o)

    __hash__ = None

    def __getattr__(self, name):
        unsupported("method %s of a symbolic text" % name)


class SymStr(Sym):
    __slots__ = ("p", "up", "low", "plain", "dup")

    def __init__(self, p, up, low, plain, dup):
        self.p, self.up, self.low, self.plain, self.dup = p, up, low, plain, dup
        self.z = None

    @property
    def __class__(self):
        return str

    def symset(self):
        return SymSet(dict(self.p), z3.Or(self.up, self.low, self.plain))

    def symlen(self):
        c = core.CX
        m = self.symset().symlen()
        n = c.mk(c.fresh_name("length"), z3.IntSort())
        c.assume_z(z3.And(n >= m.z, (n > m.z) == self.dup))
        return SymInt(n)

    def __len__(self):
        unsupported("C-level len of a symbolic text")

    def __bool__(self):
        return core.CX.fork(self.symset().any())

    def __contains__(self, c):
        if c == "":
            return True
        return c in self.symset()

    def upper_part(self):
        return z3.Or([v for k, v in self.p.items() if k.lower() != k] + [self.up])

    def lower_part(self):
        return z3.Or([v for k, v in self.p.items() if k.upper() != k] + [self.low])

    def lower(self):
        return Cased(self, "lower")

    def upper(self):
        return Cased(self, "upper")

    def islower(self):
        return SymBool(z3.And(self.lower_part(), z3.Not(self.upper_part())))

    def isupper(self):
        return SymBool(z3.And(self.upper_part(), z3.Not(self.lower_part())))

    def replace(self, a, b, count=-1):
        if len(a) == 1 and b == "" and count == -1 and a in self.p:
            p = dict(self.p)
            had = p.pop(a)
            c = core.CX
            dup = c.mk(c.fresh_name("still repeated"), z3.BoolSort())
            c.assume_z(z3.And(z3.Implies(dup, self.dup), z3.Implies(z3.And(self.dup, z3.Not(had)), dup)))
            p[a] = z3.BoolVal(False)
            return SymStr(p, self.up, self.low, self.plain, dup)
        unsupported("replacement in a symbolic text")

    def count(self, c):
        if len(c) != 1 or c not in self.p:
            unsupported("count of %r" % c)
        x = core.CX
        n = x.mk(x.fresh_name("count"), z3.IntSort())
        x.assume_z(z3.And(n >= 0, (n > 0) == self.p[c], z3.Implies(n > 1, self.dup)))
        x.exact = False
        return SymInt(n)

    def __iter__(self):
        """some order of the characters (the code is not to depend on the order)"""
        unsupported("enumeration of a symbolic text")

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, str) and not core.is_sym(o) and len(o) <= 1:
            return SymBool(z3.And(z3.Not(self.dup), zb(self.symset() == set(o))))
        if isinstance(o, Cased):
            return o == self
        if not isinstance(o, str):
            return False
        unsupported("comparison of symbolic texts")

    def __ne__(self, o):
        return core.Not_(self == o)

    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("method %s of a symbolic text" % name)


runtime._HANDLERS[set] = (lambda old: lambda f, *a: a[0].symset() if a and type(a[0]) in (SymStr, SymSet) else old(f, *a))(
    runtime._HANDLERS[set])
runtime._HANDLERS[frozenset] = runtime._HANDLERS[set]


def any_mode(cx, only=None):
    """(the mode, conditions on it)"""
    chars = KNOWN_CHARS
    if cx.symbolic:
        p = {c: cx.bool("has " + c).z for c in chars}
        up, low, plain = (cx.bool(n).z for n in ("other upper-case", "other lower-case", "other without case"))
        dup = cx.bool("repeated").z
        cx.assume_z(z3.Implies(dup, z3.Or(list(p.values()) + [up, low, plain])))
        if only is not None:
            for c in chars:
                if c not in only:
                    cx.assume_z(z3.Not(p[c]))
            cx.assume_z(z3.Not(z3.Or(up, low, plain)))
        m = SymStr(p, up, low, plain, dup)
        return m, {c: SymBool(v) for c, v in p.items()}, SymBool(z3.Or(up, low, plain)), SymBool(dup), SymBool(
            m.upper_part()), SymBool(m.lower_part())
    kind = cx.choice("kind of mode", ["advanced", "standard", "any"]) if not cx.values else "any"
    n = {"advanced": 0.3, "standard": 0.25, "any": 0.12}[kind]
    pool = {"advanced": ADV, "standard": STD, "any": KNOWN_CHARS}[kind]
    p = {c: cx.flag("has " + c, n if c in pool else (0.0 if kind != "any" else n)) for c in chars}
    if not cx.values and kind != "any" and cx.rng.random() < 0.8:
        c = cx.rng.choice("RWA" if kind == "advanced" else "xrwa")
        p[c] = True
        cx.used["has " + c] = True
    others = [cx.flag(n_, 0.04) for n_ in ("other upper-case", "other lower-case", "other without case")]
    dup = cx.flag("repeated", 0.05)
    l = [c for c in chars if p[c]] + [c for c, o in zip("Zzß!"[:1] + "q" + "7", others) if o]
    if only is not None and any(p[c] and c not in only for c in chars):
        cx.give_up()
    if dup:
        if not l:
            cx.give_up()
        l.append(l[0])
    cx.rng.shuffle(l)
    m = "".join(l)
    return m, p, any(others), dup, m.lower() != m, m.upper() != m


def meaning(p, other, dup, upper, lower):
    """the documented meaning of a mode, as conditions on its characters"""
    has = lambda *cs: Or_([p[c] for c in cs])
    std = Not_(upper)
    one = Or_([And_([p[c] if c == d else Not_(p[c]) for c in "xrwa"]) for d in "xrwa"])
    ok_std = And_(std, Not_(other), Not_(dup), Not_(has("-")), one, Not_(And_(p["b"], p["t"])))
    nocase = [c for c in KNOWN_CHARS if c not in ADV]
    ok_adv = And_(upper, Not_(lower), Not_(other), Not_(dup), Not_(has(*nocase)), has("R", "W", "A"),
                  Not_(And_(has("C", "-"), has("N", "+"))), Or_(Not_(p["E"]), has("W", "A", "C", "-")),
                  Not_(And_(p["B"], p["T"])))
    valid = Or_(ok_std, ok_adv)
    pick = lambda a, b: Or_(And_(std, a), And_(Not_(std), b))
    d = dict(
        read=pick(has("r", "+"), p["R"]),
        write=pick(has("x", "w", "a", "+"), has("W", "A")),
        append=pick(p["a"], p["A"]),
        must_create=pick(p["x"], has("C", "-")),
        must_exist=pick(p["r"], has("N", "+")),
        synchronized=pick(False, p["S"]),
        inheritable=pick(False, p["I"]),
        truncate=pick(p["w"], And_(p["E"], Not_(has("C", "-")))),
        binary=pick(p["b"], p["B"]),
    )
    return valid, d


class OpenEnv(KEnv):
    """kernel: one file, at one path, not opened yet"""

    def __init__(self, cx, mode=REGULAR):
        KEnv.__init__(self, cx, mode)
        self.size0 = self.size
        self.pos = 0
        self.requests = []  # (path, flags, permissions)
        self.opened = []  # descriptors the call has to account for
        self.closed = []
        self.inherit = None
        self.touched = []
        self.erasures = []
        self.lock = "free"
        self.locked = False
        self.lock_calls = []
        self.faults = 0
        self.fault = None

    def step(self, what):
        """a system call that may fail; at most 'faults' of them do"""
        if self.faults:
            how = self.cx.choice("fault in " + what, [None, "error", "interrupted"], 0.8)
            if how is not None:
                self.faults -= 1
                self.fault = what
                raise OSError(errno.EIO, what) if how == "error" else Interruption()

    def open(self, path, flags, mode=0o777, dir_fd=None):
        cx = self.cx
        self.requests.append((path, flags, mode))
        self.step("open")
        self.opened.append(self.fd)
        self.inherit = False  # os.open() makes descriptors non inheritable
        if flags & os.O_TRUNC:
            self.erase(0)
        return self.fd

    def set_inheritable(self, fd, v):
        self.own(fd, "set_inheritable")
        self.step("set_inheritable")
        self.inherit = v

    def get_inheritable(self, fd):
        return self.inherit

    def fcntl_fcntl(self, fd, op, arg=0):
        import fcntl

        self.own(fd, "fcntl")
        self.step("fcntl")
        if op == fcntl.F_GETFD:
            return 0 if self.inherit else fcntl.FD_CLOEXEC
        if op == fcntl.F_SETFD:
            self.inherit = not (arg & fcntl.FD_CLOEXEC)
            return 0
        unsupported("unexpected fcntl")

    def fstat(self, fd):
        self.touched.append("fstat")
        self.step("fstat")
        return KEnv.fstat(self, fd)

    def lseek(self, fd, off, whence):
        self.touched.append("lseek")
        self.step("lseek")
        if self.mode == FIFO:
            raise OSError(errno.ESPIPE, "Illegal seek")
        return KEnv.lseek(self, fd, off, whence)

    def isatty(self, fd):
        self.own(fd, "isatty")
        self.step("isatty")
        return self.tty

    tty = False

    def erase(self, n):
        self.erasures.append((n, self.locked))
        self.size = n

    def ftruncate(self, fd, n):
        self.own(fd, "ftruncate")
        self.step("ftruncate")
        self.erase(n)

    def write(self, fd, data):
        self.touched.append("write")
        self.erasures.append(("write", self.locked))
        return len(data)

    def read(self, fd, n):
        self.touched.append("read")
        return b""

    def close(self, fd):
        self.closed.append(fd)
        self.locked = False

    def fcntl_lockf(self, fd, op, *a):
        import fcntl

        self.own(fd, "lockf")
        if op & ~fcntl.LOCK_NB != fcntl.LOCK_UN:
            unsupported("lock taken elsewhere than in lock_file()")
        self.locked = False

    # the contract of lock_file(), for a whole-file lock
    def lock_file(self, st, timeout=None, length=None, offset=None, whence=0, shared=None):
        cx = self.cx
        self.lock_calls.append((timeout, length, offset, whence, shared))
        how = cx.choice("lock", ["granted", "refused", "error", "interrupted"], 0.6)
        if how == "granted":
            self.locked = True
            return None
        self.fault = "lock"
        if how == "refused":
            raise cx.W["rsfile_definitions"].LockingException(errno.EAGAIN, "refused", "f")
        if how == "error":
            raise RuntimeError("Locking delay exceeded")
        raise Interruption()


class OpenReg(object):
    """the lock table, as seen by one stream"""

    def __init__(self, cx, env):
        self.cx, self.env = cx, env
        self.mutex = stubs.StubRLock("registry")
        self.pending = []

    def remove_file_locks(self, uid, handle):
        cx, env = self.cx, self.env
        ok = And_(is_instance_of_file(cx, env, uid), Eq_(handle, env.fd))
        if env.locked and ok:
            env.table = False
            return [(handle, False, 0, None)]
        return []

    def add_unique_id_data(self, uid, d):
        self.pending.append(d)

    others = False  # other streams of this process hold locks on the file

    def unique_id_has_locks(self, uid):
        return And_(self.others, is_instance_of_file(self.cx, self.env, uid))

    def remove_unique_id_data(self, uid):
        p, self.pending = self.pending, []
        return p

    def try_deleting_unique_id_entry(self, uid):
        return not self.others

    def register_file_lock(self, *a):
        unsupported("lock registered elsewhere than in lock_file()")

    def unregister_file_lock(self, *a):
        unsupported("unexpected unlock")


def dispatch(W):
    """calls of lock_file() are checked against its contract, during this call of rsopen()"""
    cls = W["rsfileio_abstract"].RSFileIOAbstract
    real = cls.__dict__["lock_file"]

    def lock_file(self, *a, **k):
        return core.CX.env.lock_file(self, *a, **k)

    cls.lock_file = lock_file
    return lambda: setattr(cls, "lock_file", real)


def call_rsopen(cx, W, *a, **k):
    """(result, type of the exception, its number)"""
    cx.W = W
    W["rsfile_factories"]
    undo = dispatch(W)
    try:
        try:
            return W["rsfile_factories"].rsopen(*a, **k), None, None
        except (Exception, Interruption) as e:
            cx.kept = e  # the caller may keep the exception, hence what its traceback refers to
            return None, type(e), getattr(e, "errno", None)
    finally:
        undo()


def setup(cx, W, mode=REGULAR, cls=OpenEnv):
    env = cx.env = cls(cx, mode)
    cx.registry = OpenReg(cx, env)
    env.table = False
    set_options(W)
    return env


def classes(W):
    return W["rsfile_streams"]


def retire(cx, st):
    """the stream is dropped without being closed by its finalizer at an arbitrary moment"""
    if st is not None:
        cx.keep.append(st)


FACTORY = "rsfile_factories.rsopen rsfile_factories.parse_standard_args rsfile_factories.parse_advanced_args"


@contract("C11", FACTORY + " rsfileio_abstract.RSFileIOAbstract.__init__ rsfileio_unix.RSFileIO._inner_create_streams",
          split={"languages": 3, "thread_safe": 2}, seconds=200)
def modes(cx, W):
    lang = cx.choice("languages", ["standard", "advanced", "invalid"])
    ts = cx.choice("thread_safe", [False, True])
    mode, p, other, dup, upper, lower = any_mode(cx)
    valid, want = meaning(p, other, dup, upper, lower)
    if lang == "standard":
        cx.assume(And_(valid, Not_(upper)))
    elif lang == "advanced":
        cx.assume(And_(valid, upper))
    elif cx.symbolic:
        cx.assume(Not_(valid))
    env = setup(cx, W)
    res, exc, _n = call_rsopen(cx, W, "some/path", mode, locking=False, thread_safe=ts)
    judge(cx, W, env, res, exc, valid, want, ts)


def judge(cx, W, env, res, exc, valid, want, ts):
    if exc is not None:
        cx.cover("mode rejected")
        cx.check("C11:a mode of the documented language is accepted", lambda: Not_(valid))
        cx.check("C11:a mode is rejected by a ValueError or TypeError", issubclass(exc, (ValueError, TypeError)))
        cx.check("C11:nothing is touched when a mode is rejected", not env.requests and not env.touched and not env.closed)
        return
    cx.cover("mode accepted")
    cx.check("C11:unknown, repeated, mixed-case or contradictory flags are rejected", lambda: valid)
    cx.check("C11:one native opening", len(env.requests) == 1)
    path, flags, perm = env.requests[0]
    acc = flags & os.O_ACCMODE
    cx.check("C11:rights are those of the tables", lambda: And_(Iff_(acc in (os.O_RDONLY, os.O_RDWR), want["read"]),
                                                               Iff_(acc in (os.O_WRONLY, os.O_RDWR), want["write"])))
    cx.check("C11:append setting", lambda: Iff_(bool(flags & os.O_APPEND), want["append"]))
    cx.check("C11:synchronised setting", lambda: Iff_(bool(flags & os.O_SYNC), want["synchronized"]))
    cx.check("C11:exclusive creation setting", lambda: Iff_(bool(flags & os.O_EXCL), want["must_create"]))
    cx.check("C11:creation setting", lambda: Iff_(not flags & os.O_CREAT, want["must_exist"]))
    cx.check("C11:inheritance setting", lambda: Iff_(env.inherit, want["inheritable"]))
    cx.check("C11:the file is erased exactly when the mode says so",
             lambda: And_(Eq_(env.size, If_(want["truncate"], 0, env.size0)), Or_(want["truncate"], not env.erasures)))
    import _pyio

    st = res.__dict__.get("wrapped_stream", None) if ts and hasattr(res, "wrapped_stream") else res
    text = isinstance(st, _pyio.TextIOBase)
    cx.check("C11:binary or text stream", lambda: Iff_(not text, want["binary"]))
    cx.check("C11:rights reported are those of the tables",
             lambda: And_(Iff_(res.readable(), want["read"]), Iff_(res.writable(), want["write"])))
    cx.check("C11:the interface is thread-safe when asked for", hasattr(res, "mutex") == ts)


@contract("C11", FACTORY, bounded=True)
def modes_enumerated(cx, W):
    """bounded: every subset of the flags, in a random order, with a character repeated or added at random"""
    n = getattr(modes_enumerated, "count", 0)
    subsets = modes_enumerated.subsets
    i = cx.int("subset", lo=0, hi=len(subsets) - 1)
    l = list(subsets[i])
    cx.rng.shuffle(l)
    twist = cx.choice("twist", ["none", "repeat", "swap case", "other"], 0.8)
    if twist == "repeat" and l:
        l.insert(cx.rng.randrange(len(l) + 1), cx.rng.choice(l))
    elif twist == "swap case" and l:
        k = cx.rng.randrange(len(l))
        l[k] = l[k].swapcase()
    elif twist == "other":
        l.insert(cx.rng.randrange(len(l) + 1), cx.rng.choice("UuzZ1 \0Xé_"))
    mode = "".join(l)
    p = {c: c in mode for c in KNOWN_CHARS}
    valid, want = meaning(p, any(c not in KNOWN_CHARS for c in mode), len(set(mode)) < len(mode), mode.lower() != mode,
                          mode.upper() != mode)
    env = setup(cx, W)
    res, exc, _n = call_rsopen(cx, W, "some/path", mode, locking=False, thread_safe=False)
    judge(cx, W, env, res, exc, valid, want, False)


def _subsets(s):
    return ["".join(c for k, c in enumerate(s) if i >> k & 1) for i in range(1 << len(s))]


modes_enumerated.subsets = _subsets(STD) + _subsets(ADV)


@contract("C11", FACTORY)
def text_arguments(cx, W):
    """arguments that interact with the mode"""
    kind = cx.choice("mode", ["rb", "r", "RB", "RT", "R", "wb", "W", "RWEB", "w+", "rt", "xb"])
    binary = "b" in kind.lower()
    what = cx.choice("argument", ["encoding", "errors", "newline", "all", "bad mode", "bad buffering", "bad name", "bad encoding", "bad errors",
                                  "mutex", "two descriptors", "opener and fileno", "opener and name", "no target", "closefd"])
    env = setup(cx, W)
    kw = {}
    name = "some/path"
    mode = kind
    wrong = True
    made = []

    def opener(n, m):
        made.append((n, m))
        env.opened.append(env.fd)
        return env.fd

    if what in ("encoding", "errors", "newline", "all"):
        if what in ("encoding", "all"):
            kw["encoding"] = cx.choice("v", ["utf-8", "ascii"])
        if what in ("errors", "all"):
            kw["errors"] = "strict"
        if what in ("newline", "all"):
            kw["newline"] = cx.choice("v", ["", "\n"])
        wrong = binary
    elif what == "bad mode":
        mode = cx.choice("v", [b"r", None, 5, ["r"], 1.5])
    elif what == "bad buffering":
        kw["buffering"] = cx.choice("v", ["5", 1.5, True, b""])
    elif what == "bad name":
        name = cx.choice("v", [True, 1.5, ["x"], False])
    elif what == "bad encoding":
        kw["encoding"] = cx.choice("v", [5, b"utf-8"])
    elif what == "bad errors":
        kw["errors"] = cx.choice("v", [5, b"strict"])
    elif what == "mutex":
        kw["mutex"] = object()
    elif what == "two descriptors":
        kw["fileno"] = cx.int("given", lo=0)
        if cx.flag("two numbers"):
            name = cx.int("other", lo=0)
    elif what == "opener and fileno":
        kw["fileno"] = cx.int("given", lo=0)
        name = None
        kw["opener"] = opener
    elif what == "opener and name":
        name = cx.int("given", lo=0)
        kw["opener"] = opener
        if mode.lower() != mode:
            return  # numbers are not targets in advanced modes
    elif what == "no target":
        name = None
    elif what == "closefd":
        kw["closefd"] = False
    res, exc, _n = call_rsopen(cx, W, name, mode, locking=False, thread_safe=False, **kw)
    if wrong:
        cx.cover("arguments rejected")
        cx.check("C11:arguments contradicting the mode are rejected", exc is not None and issubclass(exc, (ValueError, TypeError)))
        cx.check("C11:nothing is touched when arguments are rejected",
                 not env.requests and not env.touched and not env.closed and not made)
    else:
        cx.cover("arguments accepted")
        cx.check("C11:arguments that suit the mode are accepted", exc is None)
        cx.check("C11:the encoding is the one given", "encoding" not in kw or res.encoding == kw["encoding"])


# ------------------------------------------------------------------------------------------------------------------


@contract("C12", "rsfileio_unix.RSFileIO._inner_create_streams rsfileio_abstract.RSFileIOAbstract.__init__", split={"rights": 5, "creation": 4})
def native_opening(cx, W):
    read, write, append = cx.choice("rights", [(True, False, False), (False, True, False), (True, True, False), (False, False, True),
                                               (True, False, True)])
    must_create, must_exist = cx.choice("creation", [(False, False), (True, False), (False, True), (True, True)])
    kind = cx.choice("file", [REGULAR, FIFO, DIRECTORY])
    env = setup(cx, W, kind)
    sync, inh = cx.bool("synchronized"), cx.bool("inheritable")
    perm = cx.int("permissions", lo=0, hi=0o7777)
    path = cx.choice("path", ["some/path", b"some/path", "d\u00e9j\u00e0 \u4e2d", b"\xff\xfe"])
    kw = {}
    if cx.flag("permissions given"):
        kw["permissions"] = perm
    else:
        perm = 0o777
    exc = st = None
    try:
        st = W["rsfileio_unix"].RSFileIO(path, read=read, write=write, append=append, must_create=must_create,
                                         must_not_create=must_exist, synchronized=sync, inheritable=inh, **kw)
    except Exception as e:
        exc = e
    if must_create and must_exist:
        cx.cover("contradiction")
        cx.check("C12:contradictory creation modes are refused", isinstance(exc, ValueError))
        cx.check("C12:nothing is opened when arguments are contradictory", not env.requests)
        return
    write = write or append
    cx.check("C12:one native opening", len(env.requests) == 1)
    p, flags, mode = env.requests[0]
    cx.cover("opened")
    cx.check("C12:the path opened is the one given", p == path or p == os.fsencode(path))
    acc = flags & os.O_ACCMODE
    cx.check("C12:access exactly as requested", acc == (os.O_RDWR if read and write else (os.O_WRONLY if write else os.O_RDONLY)))
    cx.check("C12:append exactly when requested", bool(flags & os.O_APPEND) == append)
    cx.check("C12:synchronised exactly when requested", lambda: Iff_((flags & os.O_SYNC) == os.O_SYNC, sync))
    cx.check("C12:partially synchronised flags are not used", (flags & os.O_SYNC) in (0, os.O_SYNC))
    cx.check("C12:exclusive creation exactly for must-create", bool(flags & os.O_EXCL) == must_create)
    cx.check("C12:creation unless the file must exist", bool(flags & os.O_CREAT) == (not must_exist))
    cx.check("C12:never truncation", not flags & os.O_TRUNC)
    harmless = os.O_CLOEXEC | os.O_NOCTTY | getattr(os, "O_LARGEFILE", 0)
    cx.check("C12:no other flag", not flags & ~(os.O_ACCMODE | os.O_APPEND | os.O_SYNC | os.O_EXCL | os.O_CREAT | os.O_TRUNC | harmless))
    cx.check("C12:permissions as given", lambda: Eq_(mode, perm))
    if kind == DIRECTORY:
        cx.cover("directory")
        cx.check("C12:directories are refused", isinstance(exc, OSError) and exc.errno == errno.EISDIR)
        return
    cx.check("C12:the opening succeeds", exc is None)
    cx.check("C12:inheritable exactly when requested", lambda: Iff_(env.inherit, inh))
    cx.check("C12:the descriptor used is the one opened", lambda: Eq_(st.fileno(), env.fd))
    cx.check("C12:rights of the stream are those requested", st.readable() == read and st.writable() == write)
    cx.check("C12:opening does not change the file", not env.erasures and not env.closed)
    cx.check("C12:the stream owns its descriptor", bool(st.closefd))


class PathObject(object):
    """an object standing for a path (PEP 519)"""

    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


STD_MODES = {  # rights (read, write, append), must create, must exist
    "r": (1, 0, 0, 0, 1), "r+": (1, 1, 0, 0, 1), "w": (0, 1, 0, 0, 0), "w+": (1, 1, 0, 0, 0), "a": (0, 0, 1, 0, 0), "a+": (1, 0, 1, 0, 0),
    "x": (0, 1, 0, 1, 0), "x+": (1, 1, 0, 1, 0),
}


@contract("C12", FACTORY + " rsfileio_unix.RSFileIO._inner_create_streams rsfileio_abstract.RSFileIOAbstract.__init__", split={"mode": 4, "creation": 5})
def opening_by_path(cx, W):
    """from the mode string to the native request"""
    env = setup(cx, W)
    standard = cx.choice("mode", ["standard", "reading", "writing", "both"])
    sync = inh = False
    if standard == "standard":
        m = cx.choice("standard mode", sorted(STD_MODES))
        read, write, append, must_create, must_exist = map(bool, STD_MODES[m])
        mode = m + "b"
    else:
        rights = {"reading": ["R"], "writing": ["W", "A", "WA"], "both": ["RW", "RA", "RWA"]}[standard]
        rights = cx.choice("rights", rights)
        creation = cx.choice("creation", ["", "-", "C", "+", "N"])
        sync, inh, erase = cx.flag("synchronized"), cx.flag("inheritable"), "W" in rights and cx.flag("erase", 0.3)
        read, write, append = "R" in rights, "W" in rights, "A" in rights
        must_create, must_exist = creation in ("-", "C"), creation in ("+", "N")
        mode = rights + creation + "S" * sync + "I" * inh + "E" * erase + "B"
        if cx.flag("any order"):
            mode = mode[::-1]
    path = cx.choice("path", ["some/path", b"some/path", "d\u00e9j\u00e0 \u4e2d"])
    given = PathObject(path) if cx.flag("path object") else path
    kw = {}
    perm = 0o777
    if cx.flag("permissions given"):
        perm = kw["permissions"] = cx.int("permissions", lo=0, hi=0o7777)
    st, exc, _n = call_rsopen(cx, W, given, mode, locking=False, buffering=0, thread_safe=False, **kw)
    cx.cover("opened by path")
    cx.check("C12:a file is opened by one native opening", exc is None and len(env.requests) == 1)
    p, flags, perms = env.requests[0]
    write = write or append
    cx.check("C12:the path requested is the one given to rsopen", p == path or p == os.fsencode(path))
    cx.check("C12:access requested exactly as the mode says",
             flags & os.O_ACCMODE == (os.O_RDWR if read and write else (os.O_WRONLY if write else os.O_RDONLY)))
    cx.check("C12:append requested exactly as the mode says", bool(flags & os.O_APPEND) == append)
    cx.check("C12:synchronised requested exactly as the mode says", (flags & os.O_SYNC) == (os.O_SYNC if sync else 0))
    cx.check("C12:exclusive creation requested exactly as the mode says", bool(flags & os.O_EXCL) == must_create)
    cx.check("C12:creation requested exactly as the mode says", bool(flags & os.O_CREAT) == (not must_exist))
    cx.check("C12:no truncation requested", not flags & os.O_TRUNC)
    cx.check("C12:permissions requested are those given to rsopen", lambda: Eq_(perms, perm))
    cx.check("C12:inheritable exactly as the mode says", env.inherit is not None and bool(env.inherit) == inh)
    if not env.erasures:
        cx.check("C12:the stream starts at the end of the file when appending, else at its start",
                 lambda: Eq_(env.pos, env.size if append else 0))


@contract("C12", "rsfileio_unix.RSFileIO._inner_create_streams rsfileio_abstract.RSFileIOAbstract.__init__")
def wrapping(cx, W):
    env = setup(cx, W, cx.choice("file", [REGULAR, FIFO, DIRECTORY]))
    read, write, append = cx.choice("rights", [(True, False, False), (False, True, False), (True, True, False), (False, False, True)])
    how = cx.choice("given as", ["fileno", "handle"])
    closefd = cx.flag("closefd")
    exc = st = None
    try:
        st = W["rsfileio_unix"].RSFileIO(**{how: env.fd, "read": read, "write": write, "append": append, "closefd": closefd,
                                            "inheritable": cx.flag("inheritable"), "synchronized": cx.flag("synchronized")})
    except Exception as e:
        exc = e
    cx.cover("wrapped")
    cx.check("C12:wrapping a descriptor opens nothing and changes none of its settings",
             not env.requests and env.inherit is None and not env.erasures)
    if env.mode == DIRECTORY:
        cx.check("C12:directories are refused", isinstance(exc, OSError) and exc.errno == errno.EISDIR)
        exc = None
        cx.check("C12:a refused descriptor stays open", not env.closed)
        return
    cx.check("C12:wrapping succeeds", exc is None)
    cx.check("C12:the descriptor is used as it is", lambda: And_(Eq_(st.fileno(), env.fd), Eq_(st.handle(), env.fd)))
    cx.check("C12:closefd as given", st.closefd is closefd)


# ------------------------------------------------------------------------------------------------------------------


def erase_modes():
    out = ["r", "r+", "w", "w+", "a", "a+", "x", "x+"]
    for i in range(64):
        m = "".join(c for k, c in enumerate("RWACNE") if i >> k & 1)
        if not set(m) & set("RWA") or ("C" in m and "N" in m) or ("E" in m and not set(m) & set("WAC")):
            continue
        out.append(m)
    return out


MODES13 = erase_modes()


def asks_erasure(m):
    return "w" in m or ("E" in m and "C" not in m)


@contract("C13 C14", FACTORY + " rsfileio_abstract.RSFileIOAbstract.truncate", split={"origin": 5, "locking": 2})
def erasure(cx, W):
    mode = cx.choice("mode", MODES13)
    origin = cx.choice("origin", ["path", "fileno", "name", "handle", "opener"])
    locking = cx.choice("locking", [True, False])
    if origin == "name" and mode.lower() != mode:
        mode = "w"
    env = setup(cx, W, cx.choice("file", [REGULAR, FIFO], 0.8))
    timeout = cx.choice("timeout", [None, 0, 5])
    kw = dict(mode=mode + ("b" if mode.lower() == mode else "B"), locking=locking, timeout=timeout, buffering=0, thread_safe=False)
    if origin == "path":
        kw["name"] = "some/path"
    elif origin == "opener":
        def opener(n, m):
            env.opened.append(env.fd)
            return env.fd
        kw["name"], kw["opener"] = "some/path", opener
    elif origin == "name":
        kw["name"] = env.fd
    else:
        kw[origin] = env.fd
    res, exc, _n = call_rsopen(cx, W, **kw)
    expected = asks_erasure(mode) and origin == "path" and env.mode == REGULAR
    if not expected:
        cx.check("C13:no erasure unless a path is opened in an erasing mode",
                 lambda: And_(not env.erasures, Eq_(env.size, env.size0)))
    if locking and env.mode == REGULAR:
        cx.check("C13:the content is not modified before the lock is held", all(l for _n, l in env.erasures))
        cx.check("C13:one lock request on opening, with the time-out given", len(env.lock_calls) == 1)
        t, length, offset, whence, shared = env.lock_calls[0]
        cx.check("C13:the whole file is locked", And_(length is None or length == 0, offset is None or offset == 0,
                                                     whence == 0, t is timeout or t == timeout))
        writable = bool(set(mode) & set("WAwax+"))
        cx.check("C13:the lock is exclusive for a writable stream, else shared", shared is None or shared == (not writable))
    else:
        cx.check("C13:no lock is taken unless asked for", not env.lock_calls)
    if exc is None:
        cx.cover("opened")
        if expected:
            cx.cover("erased")
            cx.check("C13:the file is erased when asked for", lambda: Eq_(env.size, 0))
        if locking and env.mode == REGULAR:
            cx.check("C13:the lock is held once opened", env.locked)
        cx.check("C14:a descriptor stays open after a successful opening", not env.closed)
    else:
        cx.cover("refused")
        cx.check("C13,C14:opening fails only with its lock", env.fault == "lock")
        if env.fault == "lock":
            cx.check("C13:the file keeps its content if the lock is refused", lambda: And_(not env.erasures, Eq_(env.size, env.size0)))
        after_failure(cx, env, origin, True)


def after_failure(cx, env, origin, closefd):
    cx.check("C14:every descriptor opened, or obtained from the opener, is closed once after a failure",
             lambda: And_(len(env.closed) <= 1, Or_(not env.opened, not closefd, len(env.closed) == 1)))
    if env.closed:
        cx.check("C14:only that descriptor is closed", lambda: Eq_(env.closed[0], env.fd))
    if not closefd:
        cx.check("C14:a descriptor given with closefd=False stays open", not env.closed)
    cx.check("C14:no lock stays held after a failure", not env.locked)
    cx.kept = None


MODES14 = ["r", "rb", "w", "wb", "a+b", "RWEB", "A", "zz", "RE", "CNRW", "B"]


class FaultEnv(OpenEnv):
    def lock_file(self, st, timeout=None, length=None, offset=None, whence=0, shared=None):
        self.step("lock_file")
        self.locked = True


def failing(cx, W, kinds):
    """the arguments of an opening which may fail, and its environment"""
    cx.collect = True  # what is left must not be finalized during another run
    mode = cx.choice("mode", MODES14)
    origin = cx.choice("origin", ["path", "fileno", "handle", "opener", "fileno kept", "opener kept", "bad opener", "opener and handle"])
    closefd = "kept" not in origin
    kind = cx.choice("file", kinds, 0.7)
    env = setup(cx, W, kind, FaultEnv)
    env.faults = 1
    env.tty = cx.flag("terminal", 0.1)
    buffering = cx.choice("buffering", [None, 0, 1, 4096], 0.5)
    bad = cx.choice("bad argument", [None, "encoding", "newline", "errors"], 0.7)
    kw = dict(mode=mode, buffering=buffering, closefd=closefd, thread_safe=cx.flag("thread_safe"))
    if bad is not None:
        kw[bad] = {"encoding": "no-such-encoding", "newline": "bad", "errors": "no-such-handler"}[bad]
    if "opener" in origin:
        def opener(n, m):
            env.step("opener")
            if origin == "bad opener":
                return -1
            env.opened.append(env.fd)
            return env.fd
        kw["name"], kw["opener"] = "some/path", opener
        if "handle" in origin:
            kw["handle"] = env.fd + 1
    elif origin == "path":
        kw["name"] = "some/path"
    else:
        kw[origin.split()[0]] = env.fd
    return env, origin, closefd, kw


OPENING = (FACTORY + " rsfileio_abstract.RSFileIOAbstract.__init__ rsfileio_abstract.RSFileIOAbstract.close "
           "rsfileio_unix.RSFileIO._inner_create_streams rsfileio_unix.RSFileIO._inner_close_streams")


@contract("C06", OPENING, split={"mode": 11, "origin": 8})
def failed_opening(cx, W):
    """other streams of the process hold locks on the file; its descriptors are kept until they are released"""
    env, origin, closefd, kw = failing(cx, W, [REGULAR])
    cx.registry.others = True
    res, exc, _n = call_rsopen(cx, W, **kw)
    if exc is None:
        cx.cover("opened")
        return
    cx.cover("failed")
    cx.kept = None
    if env.fault in ("fstat", "set_inheritable", "fcntl"):
        return  # the descriptor could not be identified
    cx.check("C06:an opening that fails closes no descriptor of a file this process holds locks on", not env.closed)
    if env.opened and closefd:
        cx.check("C06:the descriptor of a failed opening is kept until these locks are released",
                 lambda: len(cx.registry.pending) == 1 and Eq_(cx.registry.pending[0], env.fd))


@contract("C14", OPENING, split={"mode": 11, "origin": 8})
def failures(cx, W):
    env, origin, closefd, kw = failing(cx, W, [REGULAR, FIFO, DIRECTORY])
    res, exc, _n = call_rsopen(cx, W, **kw)
    if exc is None:
        cx.cover("opened")
        cx.check("C14:a successful opening closes nothing", not env.closed)
        return
    cx.cover("failed")
    after_failure(cx, env, origin, closefd)
    if origin in ("fileno", "handle"):
        cx.check("C14:a wrapped descriptor is never closed twice", len(env.closed) <= 1)


# ------------------------------------------------------------------------------------------------------------------

WRAPPER = "rsfile_utilities.RSFileIOWrapper.__init__ rsfile_factories.parse_standard_args rsfileio_abstract.RSFileIOAbstract.__init__"


@contract("C11 C13 C14", WRAPPER, split={"origin": 3})
def file_io_replacement(cx, W):
    """the replacement of io.FileIO: standard modes, no lock"""
    cx.collect = True
    origin = cx.choice("origin", ["path", "descriptor", "kept descriptor"])
    mode, p, other, dup, upper, lower = any_mode(cx)
    valid, want = meaning(p, other, dup, upper, lower)
    valid = And_(valid, Not_(upper), Not_(p["t"]))
    cx.assume(Not_(p["U"]))
    env = setup(cx, W, cx.choice("file", [REGULAR, FIFO, DIRECTORY], 0.7), FaultEnv)
    env.faults = 1
    kw = {}
    if origin == "kept descriptor":
        kw["closefd"] = False
    name = "some/path" if origin == "path" else env.fd
    cx.W = W
    res = exc = None
    undo = dispatch(W)
    try:
        try:
            res = W["rsfile_utilities"].RSFileIOWrapper(name, mode, **kw)
        except (Exception, Interruption) as e:
            exc = type(e)
            cx.kept = e
    finally:
        undo()
    untouched = lambda: And_(not env.erasures, Eq_(env.size, env.size0))
    cx.check("C13:no lock is taken unless asked for", not env.lock_calls and not env.locked)
    if origin != "path":
        cx.check("C13:no erasure unless a path is opened in an erasing mode", untouched)
        cx.check("C13:wrapping opens nothing", not env.requests)
    else:
        cx.check("C13:no erasure unless a path is opened in an erasing mode", lambda: Or_(want["truncate"], untouched()))
    if exc is not None:
        if env.fault is None and env.mode != DIRECTORY:
            cx.cover("mode rejected")
            cx.check("C11:a mode of the documented language is accepted", lambda: Not_(valid))
            cx.check("C11:a mode is rejected by a ValueError or TypeError", issubclass(exc, (ValueError, TypeError)))
            cx.check("C11:nothing is touched when a mode is rejected", not env.requests and not env.touched and not env.closed)
        else:
            cx.cover("failed")
            after_failure(cx, env, origin, origin != "kept descriptor")
        return
    cx.cover("opened")
    cx.check("C11:unknown, repeated, mixed-case or contradictory flags are rejected", lambda: valid)
    cx.check("C14:a successful opening closes nothing", not env.closed)
    cx.check("C11:rights reported are those of the tables",
             lambda: And_(Iff_(res.readable(), want["read"]), Iff_(res.writable(), want["write"])))
    if origin == "path":
        _p, flags, _perm = env.requests[0]
        acc = flags & os.O_ACCMODE
        cx.check("C11:one native opening", len(env.requests) == 1)
        cx.check("C11:rights are those of the tables", lambda: And_(Iff_(acc in (os.O_RDONLY, os.O_RDWR), want["read"]),
                                                                   Iff_(acc in (os.O_WRONLY, os.O_RDWR), want["write"])))
        cx.check("C11:append setting", lambda: Iff_(bool(flags & os.O_APPEND), want["append"]))
        cx.check("C11:exclusive creation setting", lambda: Iff_(bool(flags & os.O_EXCL), want["must_create"]))
        cx.check("C11:creation setting", lambda: Iff_(not flags & os.O_CREAT, want["must_exist"]))
        if env.mode == REGULAR:
            cx.check("C11:the file is erased exactly when the mode says so",
                     lambda: Eq_(env.size, If_(want["truncate"], 0, env.size0)))


@contract("C11 C13 C14", "rsfile_utilities.BUILTIN_OPEN_FUNC_REPLACEMENT " + FACTORY, split={"origin": 3})
def open_replacement(cx, W):
    """the replacement of open(): that function, without lock nor thread-safe interface"""
    cx.collect = True
    origin = cx.choice("origin", ["path", "descriptor", "kept descriptor"])
    mode = cx.choice("mode", ["r", "rb", "r+b", "w", "wb", "w+b", "a", "ab", "a+b", "x", "xb", "x+b", "rw", "rr", "zz", "", "rbt"])
    env = setup(cx, W, cx.choice("file", [REGULAR, FIFO, DIRECTORY], 0.7), FaultEnv)
    env.faults = 1
    kw = {"closefd": False} if origin == "kept descriptor" else {}
    if "b" in mode:
        kw["buffering"] = cx.choice("buffering", [-1, 0, 512])
    name = "some/path" if origin == "path" else env.fd
    cx.W = W
    f = W["rsfile_utilities"].BUILTIN_OPEN_FUNC_REPLACEMENT
    f = getattr(f, "__func__", f)
    res = exc = None
    undo = dispatch(W)
    try:
        try:
            res = f(name, mode, **kw)
        except (Exception, Interruption) as e:
            exc = type(e)
            cx.kept = e
    finally:
        undo()
    cx.check("C13:no lock is taken unless asked for", not env.lock_calls and not env.locked)
    if origin != "path" or "w" not in mode:
        cx.check("C13:no erasure unless a path is opened in an erasing mode", lambda: And_(not env.erasures, Eq_(env.size, env.size0)))
    bad = mode in ("rw", "rr", "zz", "", "rbt")
    if exc is not None:
        if bad:
            cx.cover("mode rejected")
            cx.check("C11:a mode is rejected by a ValueError or TypeError", issubclass(exc, (ValueError, TypeError)))
            cx.check("C11:nothing is touched when a mode is rejected", not env.requests and not env.touched and not env.closed)
        else:
            cx.cover("failed")
            cx.check("C11:a mode of the documented language is accepted",
                     env.fault is not None or env.mode == DIRECTORY or (env.mode == FIFO and "+" in mode))
            after_failure(cx, env, origin, origin != "kept descriptor")
        return
    cx.cover("opened")
    cx.check("C11:unknown, repeated, mixed-case or contradictory flags are rejected", not bad)
    cx.check("C11:the interface is thread-safe when asked for", not hasattr(res, "mutex"))
    cx.check("C14:a successful opening closes nothing", not env.closed)
    if origin == "path" and env.mode == REGULAR:
        cx.check("C11:the file is erased exactly when the mode says so", lambda: Eq_(env.size, 0 if "w" in mode else env.size0))


ALL = [modes, modes_enumerated, text_arguments, native_opening, opening_by_path, wrapping, erasure, failed_opening, failures, file_io_replacement, open_replacement]
