"""
Contracts of the whole-file helpers (on top of the contract of rsopen and of the streams it returns), of the numeric
encodings of the Win32 backends, and of the process-wide options.
"""
import errno
import inspect
from fractions import Fraction

import z3

from pyvc.contract import contract
from pyvc import core, lists, runtime, stubs
from pyvc.core import And_, Eq_, If_, Iff_, Implies_, Not_, Or_, SymBytes, unsupported

from .kernel import Interruption
from .opening import KNOWN_CHARS, meaning


class Refused(OSError):
    pass


DESCRIPTOR = 77


class UEnv(stubs.DefaultEnv):
    """what the helpers may ask the system: synchronising the descriptor of their stream"""

    file = None

    def fsync(self, fd):
        if fd != DESCRIPTOR or self.file is None:
            unsupported("another descriptor")
        self.file.fail("fsync")
        self.cx.ghost["synced"] = Not_(self.cx.ghost["pending"])  # what is still in buffers is not concerned

    def fdatasync(self, fd):
        if fd != DESCRIPTOR or self.file is None:
            unsupported("another descriptor")
        self.file.fail("fdatasync")


class Name(object):
    pass


def explain(mode):
    """documented meaning of a mode string, or None"""
    if not isinstance(mode, str):
        return None
    p = {c: c in mode for c in KNOWN_CHARS}
    other = any(c not in KNOWN_CHARS for c in mode)
    valid, d = meaning(p, other, len(set(mode)) != len(mode), mode.lower() != mode, mode.upper() != mode)
    return d if valid else None


class File(object):
    """
    The contract of the streams rsopen() returns, for what the helpers do with them.  Ghost state: rest (what is still to be
    written, or read), pending (accepted data not yet handed to the system), synced, failed (an error was raised), closed.
    """

    def __init__(self, cx, text, reading):
        self.cx, self.text, self.reading = cx, text, reading

    # -- writing
    def write(self, d):
        cx, g = self.cx, self.cx.ghost
        cx.check("C19:the stream is used while open", lambda: Not_(g["closed"]))
        if self.reading:
            unsupported("write to a file being read")
        self.fail("write")
        istext = d.__class__ is str
        cx.check("C19:text is written to text streams, bytes to binary ones", istext == self.text)
        d = self.data(d)
        cx.check("C19:what is written is the next part of the data", lambda: prefix(d, g["rest"]))
        n = size(d)
        if self.text or cx.flag("all accepted", 0.4):
            k = n
        else:
            if cx.flag("nothing accepted", 0.1):
                g["failed"] = True  # a nonblocking device which is full: the helper may only give up or insist
                return None
            k = cx.int("accepted", lo=0, hi=None) if cx.symbolic else cx.int("accepted", lo=min(1, n), hi=n)
            if cx.symbolic:
                cx.assume(And_(k <= n, Or_(k >= 1, n == 0)))
        g["rest"] = tail(g["rest"], k)
        g["pending"] = Or_(g["pending"], k > 0)
        g["synced"] = And_(g["synced"], k == 0)
        return k

    def data(self, d):
        if core.is_sym(d):
            return d
        if isinstance(d, str):
            return d
        return bytes(memoryview(d).cast("B"))

    def writelines(self, lines):
        def body(l):
            self.write(l)

        lists.for_loop(lines, body, runtime._noget, runtime._noset) if self.cx.symbolic else [body(l) for l in lines]

    def push(self):
        g = self.cx.ghost
        if g["pending"]:
            self.fail("flush")
            g["pending"] = False
            g["synced"] = False

    def flush(self):
        self.cx.check("C19:the stream is used while open", lambda: Not_(self.cx.ghost["closed"]))
        self.push()

    def sync(self, metadata=True, full_flush=True):
        self.flush()
        self.fail("sync")
        self.cx.ghost["synced"] = And_(bool(metadata), bool(full_flush))

    def truncate(self, n=None):
        unsupported("truncation by a helper")

    # -- the descriptor, for the caller to synchronise it
    def fileno(self):
        self.cx.check("C19:the stream is used while open", lambda: Not_(self.cx.ghost["closed"]))
        self.cx.env.file = self
        return DESCRIPTOR

    handle = fileno

    # -- reading
    def read(self, n=-1):
        cx, g = self.cx, self.cx.ghost
        cx.check("C19:the stream is used while open", lambda: Not_(g["closed"]))
        if not self.reading:
            unsupported("read from a file being written")
        self.fail("read")
        rest = g["rest"]
        total = size(rest)
        if n is None or n < 0:
            if cx.flag("all at once", 0.3):
                g["rest"] = rest[:0]
                return rest
            k = cx.int("got", lo=0)
        else:
            k = cx.int("got", lo=0)
            cx.assume(k <= n)
        if cx.symbolic:
            cx.assume(And_(k <= total, Or_(k >= 1, total == 0, False if n is None else n == 0)))
        else:
            k = max(min(1, total), min(k, total)) if n is None or n != 0 else 0
        g["rest"] = tail(rest, k)
        return rest[:k]

    read1 = read

    def readall(self):
        return self.read(-1)

    # -- both
    def fail(self, what):
        cx = self.cx
        how = cx.choice("fault in " + what, [None, "error", "interrupted"], 0.93)
        if how is not None:
            cx.ghost["failed"] = True
            raise Refused(errno.ENOSPC, what) if how == "error" else Interruption()

    def close(self):
        g = self.cx.ghost
        if g["closed"]:
            return
        g["closed"] = True
        self.push()

    @property
    def closed(self):
        return self.cx.ghost["closed"]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("method %s of the stream of a helper" % name)


def size(d):
    return d.symlen() if core.is_sym(d) else len(d)


def prefix(a, b):
    if core.is_sym(a) or core.is_sym(b):
        return core.SymBool(z3.PrefixOf(core.seq_of(a), core.seq_of(b)))
    return b[:len(a)] == a


def tail(d, k):
    if core.is_sym(d) or core.is_sym(k):
        q = core.seq_of(d)
        z = core._num(k)
        return SymBytes(z3.SubSeq(q, z, z3.Length(q) - z), d.__class__)
    return d[k:]


PASSED = {"buffering": None, "encoding": None, "errors": None, "newline": None, "locking": True, "timeout": None}


def call_helper(cx, W, reading, call, options, text, check_mode):
    """calls a helper on top of the contract of rsopen; returns (result, exception, opened?)"""
    U, F = W["rsfile_utilities"], W["rsfile_factories"]
    real = F.rsopen
    sig = inspect.signature(real)
    name = Name()
    opened = []
    g = cx.ghost

    def rsopen(*a, **k):
        try:
            b = sig.bind(*a, **k)
        except TypeError as e:
            cx.check("C19:the file is opened properly", False, why=str(e))
            raise
        b.apply_defaults()
        b = b.arguments
        cx.check("C19:the file opened is the one named", b["name"] is name)
        d = explain(b["mode"])
        cx.check("C19:the creation constraints asked for are passed on", check_mode(d))
        if d is None:
            raise ValueError("bad mode")
        cx.check("C19:the file is opened once", not opened)
        cx.check("C19:the file is opened as text for text, as binary data otherwise", d["binary"] != text)
        for o in PASSED:
            want = options.get(o, PASSED[o])
            cx.check("C19:the options given are those used to open the file", b[o] is want or (
                type(b[o]) is type(want) and b[o] == want), option=o)
        cx.check("C19:the file is opened by its name", b["handle"] is None and b["fileno"] is None and b["opener"] is None
                 and bool(b["closefd"]))
        if cx.flag("opening fails", 0.1):
            g["failed"] = True
            raise Refused(errno.EEXIST, "refused") if cx.flag("error") else Interruption()
        opened.append(d)
        g["closed"] = False
        return File(cx, text, reading)

    res = exc = None
    U.rsopen = F.rsopen = rsopen
    try:
        res = call(name)
    except (Exception, Interruption) as e:
        exc = e
    finally:
        U.rsopen = F.rsopen = real
    return res, exc, bool(opened)


def some_options(cx):
    if not cx.flag("options given"):
        return {}
    b, l, t = cx.choice("options", [(0, False, 3), (4096, True, 0)])
    return {"buffering": b, "encoding": "E", "errors": "R", "newline": "N", "locking": l, "timeout": t}


def start(cx, data):
    g = cx.ghost
    cx.env = UEnv(cx)
    g["rest"] = data
    g["pending"] = g["failed"] = False
    g["synced"] = True
    g["closed"] = True


@contract("C19", "rsfile_utilities.write_to_file rsfile_utilities.append_to_file rsfile_utilities._write_all", split={"kind": 5})
def writing(cx, W):
    kinds = [bytes, str, bytearray, memoryview, "items"]
    kind = cx.choice("kind", kinds)
    text = kind is str
    if kind == "items":  # an array of integers, or a memoryview of one
        import array

        if cx.symbolic:
            data = Items(cx.bytes("data"))
            content = data.content
        else:
            data = array.array("i", range(cx.int("items", lo=0, hi=30)))
            content = data.tobytes()
            if cx.flag("memoryview"):
                data = memoryview(data)
    else:
        data = cx.bytes("data", kind=kind)
        content = data if text or core.is_sym(data) else bytes(data)
        if core.is_sym(data) and not text:
            content = data.like(bytes)
    start(cx, content)
    g = cx.ghost
    append = cx.flag("append")
    sync = cx.flag("sync")
    options = some_options(cx)
    k = dict(options)
    if sync:
        k["sync"] = sync
    must_not = cx.flag("must_not_create", 0.3)
    must = False if append else cx.flag("must_create", 0.3)
    if must_not:
        k["must_not_create"] = True
    if must:
        k["must_create"] = True

    def check_mode(d):
        if must and must_not:
            return d is None
        return (d is not None and d["write"] and d["append"] == append and (append or must or d["truncate"])
                and not (append and d["truncate"]) and d["must_create"] == must and d["must_exist"] == must_not
                and not d["inheritable"])

    U = W["rsfile_utilities"]
    f = U.append_to_file if append else U.write_to_file
    res, exc, opened = call_helper(cx, W, False, lambda name: f(name, data, **k), options, text, check_mode)
    cx.check("C19:the file is closed", lambda: g["closed"])
    if exc is None:
        cx.cover("written")
        cx.check("C19:contradictory constraints are refused", not (must and must_not))
        cx.check("C19:returns only if all the data was accepted", lambda: And_(opened, size(g["rest"]) == 0))
        cx.check("C19:returns only if nothing is left in buffers", lambda: Not_(g["pending"]))
        if sync:
            cx.cover("synchronised")
            cx.check("C19:returns only once the data is synchronised, if asked", lambda: g["synced"])
    elif must and must_not:
        cx.cover("contradiction")
        cx.check("C19:contradictory constraints are refused", isinstance(exc, ValueError) and not opened)
    else:
        cx.cover("failed")
        cx.check("C19:raises only if something failed", lambda: g["failed"])


class Items(object):
    """an array of 4-byte items"""

    def __init__(self, content):
        self.content = content
        core.CX.assume(content.symlen() % 4 == 0)

    def symlen(self):
        return self.content.symlen() // 4

    def __bytes__(self):
        unsupported("C-level bytes() of symbolic data")

    def symview(self):
        return ItemsView(self.content)

    tobytes = lambda self: self.content


class ItemsView(Items):
    itemsize = 4
    format = "i"

    def __init__(self, content):
        self.content = content

    @property
    def nbytes(self):
        return self.content.symlen()

    def cast(self, fmt, *a):
        if fmt not in ("B", "c", "b"):
            unsupported("cast to %r" % fmt)
        return self.content.like(memoryview)

    def __getitem__(self, key):
        if type(key) is not slice:
            unsupported("item of an array")
        a = None if key.start is None else key.start * 4
        b = None if key.stop is None else key.stop * 4
        return ItemsView(self.content[a:b])


runtime._HANDLERS[memoryview] = (lambda old: lambda f, x: x.symview() if isinstance(x, Items) else old(f, x))(
    runtime._HANDLERS[memoryview])
runtime._HANDLERS[bytes] = (lambda old: lambda f, *a, **k: a[0].content if len(a) == 1 and isinstance(a[0], Items) else old(
    f, *a, **k))(runtime._HANDLERS[bytes])
File.data = (lambda old: lambda self, d: d.content if isinstance(d, Items) else old(self, d))(File.data)


@contract("C19", "rsfile_utilities.read_from_file", split={"binary": 2})
def reading(cx, W):
    binary = cx.choice("binary", [False, True])
    content = cx.bytes("content", kind=bytes if binary else str)
    start(cx, content)
    g = cx.ghost
    options = some_options(cx)
    k = dict(options)
    if binary or cx.flag("binary passed"):
        k["binary"] = binary
    cm = lambda d: d is not None and d["read"] and d["must_exist"] and not d["truncate"] and not d["must_create"] and not d["inheritable"]
    f = W["rsfile_utilities"].read_from_file
    res, exc, opened = call_helper(cx, W, True, lambda name: f(name, **k), options, not binary, cm)
    cx.check("C19:the file is closed", lambda: g["closed"])
    if exc is None:
        cx.cover("read")
        cx.check("C19:the whole content is returned, in order", lambda: And_(opened, same(res, content)))
        cx.check("C19:text or bytes are returned as asked", res.__class__ is (bytes if binary else str))
    else:
        cx.cover("failed")
        cx.check("C19:raises only if something failed", lambda: g["failed"])


def same(a, b):
    if core.is_sym(a) or core.is_sym(b):
        qa = core.seq_of(a)
        return False if qa is None else core.SymBool(qa == core.seq_of(b))
    return a == b


# ------------------------------------------------------------------------------------------------------------------
# numeric encodings

EPOCH = 116444736000000000


def word_sizes(cx):
    return cx.choice("word size", [32] + [n for n in range(1, 65) if n != 32], 0.7)


@contract("C22", "rsbackend._utilities.pyint_to_double_dwords rsbackend._utilities.double_dwords_to_pyint")
def double_words(cx, W):
    cx.env = stubs.DefaultEnv(cx)
    u = W["rsbackend._utilities"]
    w = word_sizes(cx)
    a = (w,) if w != 32 or cx.flag("size passed") else ()
    what = cx.choice("what", ["split", "join", "negative"])
    if what == "negative":
        x = cx.int("x", hi=-1)
        exc = None
        try:
            u.pyint_to_double_dwords(x, *a)
        except Exception as e:
            exc = e
        cx.cover("negative")
        cx.check("C22:negative numbers are refused", isinstance(exc, ValueError))
        return
    if what == "split":
        x = cx.int("x", lo=0, hi=2 ** (2 * w) - 1)
        lo, hi = u.pyint_to_double_dwords(x, *a)
        cx.cover("split")
        cx.check("C22:words are in range", lambda: And_(lo >= 0, lo < 2**w, hi >= 0, hi < 2**w))
        cx.check("C22:the words are those of the number", lambda: lo + hi * 2**w == x)
        y = u.double_dwords_to_pyint(lo, hi, *a)
        cx.check("C22:splitting then joining gives the same number", lambda: Eq_(x, y))
        return
    lo, hi = cx.int("low", lo=0, hi=2**w - 1), cx.int("high", lo=0, hi=2**w - 1)
    x = u.double_dwords_to_pyint(lo, hi, *a)
    cx.cover("join")
    cx.check("C22:joining gives the number made of the words", lambda: x == lo + hi * 2**w)
    l2, h2 = u.pyint_to_double_dwords(x, *a)
    cx.check("C22:joining then splitting gives the same words", lambda: And_(Eq_(lo, l2), Eq_(hi, h2)))


@contract("C22", "rsbackend._utilities.signed_to_unsigned rsbackend._utilities.unsigned_to_signed")
def signed(cx, W):
    cx.env = stubs.DefaultEnv(cx)
    u = W["rsbackend._utilities"]
    w = word_sizes(cx)
    a = (w,) if w != 32 or cx.flag("size passed") else ()
    h, m = 2 ** (w - 1), 2**w
    if cx.flag("from signed"):
        x = cx.int("x", lo=-h, hi=h - 1)
        y = u.signed_to_unsigned(x, *a)
        cx.cover("to unsigned")
        cx.check("C22:unsigned numbers are in range", lambda: And_(y >= 0, y < m))
        cx.check("C22:signed and unsigned forms are the same word", lambda: Or_(y == x, y == x + m))
        cx.check("C22:conversions to unsigned and back are inverse", lambda: Eq_(x, u.unsigned_to_signed(y, *a)))
    else:
        x = cx.int("x", lo=0, hi=m - 1)
        y = u.unsigned_to_signed(x, *a)
        cx.cover("to signed")
        cx.check("C22:signed numbers are in range", lambda: And_(y >= -h, y < h))
        cx.check("C22:signed and unsigned forms are the same word", lambda: Or_(y == x, y == x - m))
        cx.check("C22:conversions to signed and back are inverse", lambda: Eq_(x, u.signed_to_unsigned(y, *a)))


def exact(x):
    return Fraction(x) if isinstance(x, (float, int)) else x


@contract("C22", "rsbackend._utilities.win32_filetime_to_python_timestamp rsbackend._utilities.python_timestamp_to_win32_filetime")
def file_times(cx, W):
    """over the reals in proofs; with the rounding of floating point numbers (1 microsecond) in concrete runs"""
    cx.env = stubs.DefaultEnv(cx)
    u = W["rsbackend._utilities"]
    if cx.flag("from file time"):
        top = 2**64 - 1 if cx.flag("far") else 2**58
        x = cx.int("file time", lo=0, hi=top)
        if not cx.symbolic and cx.flag("usual", 0.7):
            x = EPOCH + cx.rng.randrange(0, 20 * 10**16)
            cx.used["file time"] = x
        lo, hi = x % 2**32, x // 2**32
        t = u.win32_filetime_to_python_timestamp(lo, hi)
        cx.cover("to seconds")
        if cx.symbolic:
            cx.check("C22:the same instant in seconds", lambda: t * 10**7 == x - EPOCH)
            l2, h2 = u.python_timestamp_to_win32_filetime(t)
            cx.check("C22:converting back gives the same instant", lambda: And_(Eq_(lo, l2), Eq_(hi, h2)))
        else:
            want = Fraction(x - EPOCH, 10**7)
            cx.check("C22:the same instant in seconds", lambda: abs(Fraction(t) - want) <= Fraction(1, 10**7) + abs(want) / 2**50)
            if x < 2**62:
                l2, h2 = u.python_timestamp_to_win32_filetime(t)
                cx.check("C22:converting back gives the same instant",
                         lambda: abs((l2 + h2 * 2**32) - x) <= 16 + x // 2**50 and 0 <= l2 < 2**32)
        return
    # not before 1601
    t = cx.real("seconds", lo=-11644473600)
    if not cx.symbolic:
        t = cx.rng.choice([t, cx.rng.uniform(-1e10, 4e9), float(cx.rng.randrange(0, 2 * 10**9)), cx.rng.randrange(0, 2 * 10**9)])
        cx.used["seconds"] = t
    else:
        cx.assume(t <= 10**11)
    lo, hi = u.python_timestamp_to_win32_filetime(t)
    cx.cover("from seconds")
    cx.check("C22:words are in range", lambda: And_(lo >= 0, lo < 2**32, hi >= 0, hi < 2**32))
    if cx.symbolic:
        n = lo + hi * 2**32
        cx.check("C22:the same instant as a file time", lambda: And_(n <= t * 10**7 + EPOCH, n > t * 10**7 + EPOCH - 1))
    else:
        n = lo + hi * 2**32
        want = Fraction(t) * 10**7 + EPOCH
        cx.check("C22:the same instant as a file time", lambda: abs(n - want) <= 2 + (abs(want) + abs(Fraction(t) * 10**7)) / 2**51)


# ------------------------------------------------------------------------------------------------------------------
# options

OPTIONS = ["enforced_locking_timeout_value", "default_spinlock_delay"]
UNKNOWN = ["zorglub", "default_spinlock_delay_", "Default_Spinlock_Delay", "_defaults", "max_input_load_bytes"]


def option_values(cx, what):
    return {"enforced_locking_timeout_value": None if cx.flag(what + " none") else cx.real(what + " time-out", lo=0.01),
            "default_spinlock_delay": cx.real(what + " delay", lo=0.01)}


def same_options(a, b):
    """two dictionaries of options"""
    if type(a) is not dict and not isinstance(a, dict):
        return False
    if set(a) != set(b):
        return False
    return And_([(a[k] is b[k]) or ((a[k] is not None) and (b[k] is not None) and Eq_(a[k], b[k])) for k in sorted(b)])


@contract("C24", "rsfile_registries.set_rsfile_options rsfile_registries.get_rsfile_options")
def options(cx, W):
    """one update of arbitrary options: any history is made of such steps"""
    cx.env = stubs.DefaultEnv(cx)
    R = W["rsfile_registries"]
    saved = R.get_rsfile_options()
    try:
        one_update(cx, R)
    finally:
        R.set_rsfile_options(**saved)


def one_update(cx, R):
    before = option_values(cx, "before")
    R.set_rsfile_options(**before)
    d = R.get_rsfile_options()
    cx.check("C24:the options reported are the values set", lambda: same_options(d, before))
    for n in OPTIONS:
        if cx.flag("caller changes " + n):
            d[n] = 1234.5
    if cx.flag("caller empties it"):
        d.clear()
    else:
        d["something else"] = 1
    cx.check("C24:changing the reported options changes nothing", lambda: same_options(R.get_rsfile_options(), before))
    new = option_values(cx, "new")
    names = [n for n in OPTIONS if cx.flag("given " + n)]
    bad = cx.choice("unknown", [[], UNKNOWN[:1], UNKNOWN[1:2], UNKNOWN[2:3], UNKNOWN[3:4], UNKNOWN[4:], UNKNOWN[:2]], 0.5)
    update = {}
    if cx.flag("unknown first"):
        update.update({n: 5 for n in bad})
    for n in (names if cx.flag("in order") else names[::-1]):
        update[n] = new[n]
    update.update({n: 5 for n in bad})
    exc = None
    try:
        R.set_rsfile_options(**update)
    except Exception as e:
        exc = e
    after = R.get_rsfile_options()
    if bad:
        cx.cover("unknown name")
        cx.check("C24:unknown options are refused", isinstance(exc, (ValueError, TypeError, KeyError)))
        cx.check("C24:a refused update changes nothing", lambda: same_options(after, before))
    else:
        cx.cover("update")
        cx.check("C24:known options are accepted", exc is None)
        cx.check("C24:exactly the options given change, to the values given",
                 lambda: same_options(after, dict(before, **{n: new[n] for n in names})))


ALL = [writing, reading, double_words, signed, file_times, options]
writing.assumes = ["contract of the streams returned by rsopen, as the helpers use them: write() accepts a non-empty prefix "
                   "(all of a text), or returns None, or raises; flush() and close() hand everything over or raise"]
reading.assumes = ["read() of a file opened by its name returns a non-empty prefix of what is left, nothing only at the end, or raises"]
