"""
Core of the verifier: execution contexts, symbolic values, obligations.

A *harness* is the contract of one function of the code under test: it builds an arbitrary state satisfying the
precondition, runs the real function, and states the postcondition.  The same harness runs in two kinds of context:

* SymCx: every input is a z3 term; the function's instrumented source is executed once per path, each path yielding
  verification conditions (path condition => obligation) that z3 must discharge;
* ConcCx: every input is a plain value (from a counter-model, or drawn at random); the unmodified source is executed.
"""
import builtins
import itertools
import random
import time

import z3

# the error check that follows every call of the z3 API is only useful for calls that can fail
for _n in ("inc_ref", "dec_ref", "get_sort", "get_ast_kind", "is_eq_ast", "get_sort_kind", "get_app_decl", "get_decl_kind",
           "get_app_num_args", "get_app_arg", "get_bool_value", "get_ast_id", "get_ast_hash"):
    _f = getattr(z3.z3core, "Z3_" + _n, None)
    if _f is not None and _f.__defaults__ and hasattr(_f.__defaults__[-1], "Check"):
        _f.__defaults__[-1].Check = lambda ctx: None


# --------------------------------------------------------------------------------------------------------------
# control flow of the verifier itself; BaseExceptions, so that code under test does not swallow them by accident


class PathEnd(BaseException):
    """The current path is over (infeasible, cut at a loop head, ...)."""


class Unsupported(BaseException):
    """The code does something the verifier can't reason about."""


class Restart(BaseException):
    """Loop annotations changed: start the exploration again."""


class CheckFailed(BaseException):
    """(concrete mode) an obligation is false on this input."""


class AssumeFailed(BaseException):
    """(concrete mode) this input is outside the precondition."""


def restart():
    """loop annotations have changed; the request survives the finally blocks of the code under test"""
    CX.restart = True
    CX.note_dead("restart")
    raise Restart()


CX = None  # the current context


def cx():
    return CX


def set_cx(c):
    global CX
    CX = c


def unsupported(msg):
    c = CX
    if c is not None and getattr(c, "symbolic", False):
        c.note_dead("unsupported", msg)
    elif c is not None and getattr(c, "dead", False):
        raise AssumeFailed(msg)  # the run is already given up, its code has swallowed the exception
    raise Unsupported(msg)


# --------------------------------------------------------------------------------------------------------------
# symbolic values


class Sym(object):
    """Base of symbolic values."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __hash__(self):
        unsupported("hash of a symbolic value")

    def __reduce__(self):
        unsupported("pickling of a symbolic value")

    def __repr__(self):
        return "<sym %s>" % (self.z,)

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __getattr__(self, name):
        if hasattr(self.__class__, name) and not (name.startswith("__") and name.endswith("__")):
            unsupported("%s.%s of a symbolic value" % (self.__class__.__name__, name))
        raise AttributeError("%r object has no attribute %r" % (self.__class__.__name__, name))


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def _num(x):
    """python or symbolic number -> z3 arithmetic term, or None"""
    t = type(x)
    if t is SymInt or t is SymReal:
        return x.z
    if t is SymBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if t is bool:
        return z3.IntVal(int(x))
    if isinstance(x, int) and not is_sym(x):
        return z3.IntVal(int(x))
    if t is float:
        if x != x or x in (float("inf"), float("-inf")):
            return None
        from fractions import Fraction

        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    return None


def _wrapnum(z):
    z = z3.simplify(z) if z.num_args() < 4 else z
    return SymInt(z) if z.is_int() else SymReal(z)


def _arith(op):
    def f(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        return _wrapnum(op(a, b))

    return f


def _rarith(op):
    def f(self, other):
        a, b = _num(other), _num(self)
        if a is None:
            return NotImplemented
        return _wrapnum(op(a, b))

    return f


def _cmp(op):
    def f(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        return SymBool(op(a, b))

    return f


def _const_int(x):
    """value of a python int or of a constant symbolic int, else None"""
    if is_sym(x):
        z = z3.simplify(_num(x))
        return z.as_long() if z3.is_int_value(z) else None
    return x if isinstance(x, int) else None


def _pow2(n):
    return n is not None and n > 0 and n & (n - 1) == 0


class _NumMixin(Sym):
    __slots__ = ()

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            return False
        return SymBool(a == b)

    def __ne__(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            return True
        return SymBool(a != b)

    def __mul__(self, other):
        if isinstance(other, (bytes, bytearray, str, list, tuple)) and not is_sym(other):
            return repeat(other, self)
        if type(other) is SymBytes:
            return repeat(other, self)
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        return _wrapnum(a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return _wrapnum(-_num(self))

    def __pos__(self):
        return _wrapnum(_num(self))

    def __abs__(self):
        z = _num(self)
        return _wrapnum(z3.If(z >= 0, z, -z))

    def __bool__(self):
        return CX.fork(_num(self) != 0)

    def __truediv__(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        if CX.fork(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(_real(a) / _real(b))

    def __rtruediv__(self, other):
        a, b = _num(other), _num(self)
        if a is None:
            return NotImplemented
        if CX.fork(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(_real(a) / _real(b))

    def _divmod(self, other, rev):
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        if rev:
            a, b = b, a
        if not (a.is_int() and b.is_int()):
            unsupported("// or % on symbolic reals")
        bv = z3.simplify(b)
        if z3.is_int_value(bv) and bv.as_long() > 0:
            return SymInt(a / b), SymInt(a % b)
        unsupported("// or % by a symbolic or negative number")

    def __floordiv__(self, other):
        r = self._divmod(other, False)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, other):
        r = self._divmod(other, True)
        return r if r is NotImplemented else r[0]

    def __mod__(self, other):
        r = self._divmod(other, False)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, other):
        r = self._divmod(other, True)
        return r if r is NotImplemented else r[1]

    def __divmod__(self, other):
        return self._divmod(other, False)

    def __pow__(self, other):
        e = _const_int(other)
        if e is None or e < 0 or e > 8:
            unsupported("** with a symbolic exponent")
        r = z3.IntVal(1)
        for _ in range(e):
            r = r * _num(self)
        return _wrapnum(r)

    def __rpow__(self, other):
        unsupported("** with a symbolic exponent")

    # bitwise operations, with constant masks and shift counts only
    def __lshift__(self, other):
        n = _const_int(other)
        if n is None or n < 0:
            unsupported("shift by a symbolic count")
        return SymInt(_num(self) * (2**n))

    def __rshift__(self, other):
        n = _const_int(other)
        if n is None or n < 0:
            unsupported("shift by a symbolic count")
        return SymInt(_num(self) / (2**n))

    def __rlshift__(self, other):
        unsupported("shift by a symbolic count")

    __rrshift__ = __rlshift__

    def __and__(self, other):
        m = _const_int(other)
        if m is None:
            x = _const_int(self)
            if x is None:
                unsupported("& of two symbolic integers")
            return other & x
        if m == 0:
            return 0
        if m == -1:
            return self
        if m > 0:
            low = (m & -m).bit_length() - 1  # contiguous mask: ((x >> low) mod 2**k) << low
            k = (m >> low) + 1
            if _pow2(k):
                return SymInt(((_num(self) / (2**low)) % k) * (2**low))
        elif _pow2(-m):  # clears low bits
            return SymInt(_num(self) - (_num(self) % (-m)))
        unsupported("& with a non contiguous mask")

    __rand__ = __and__

    def __or__(self, other):
        m = _const_int(other)
        if m == 0:
            return self
        x = _const_int(self)
        if x is not None and m is not None:
            return x | m
        if m is not None and m > 0:
            # set each bit separately
            z = _num(self)
            acc = z
            b = 0
            while (1 << b) <= m:
                if m & (1 << b):
                    bit = (z / (1 << b)) % 2
                    acc = acc + z3.If(bit == 0, z3.IntVal(1 << b), z3.IntVal(0))
                b += 1
            return SymInt(acc)
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        # x | y == x + y when their bits are disjoint: provable when one is below 2**k and the other a multiple
        for lo, hi in ((a, b), (b, a)):
            for k in (32, 16, 8, 24, 48):
                if CX.entails(z3.And(lo >= 0, lo < 2**k, hi % (2**k) == 0)):
                    return SymInt(a + b)
        unsupported("| of two symbolic integers")

    __ror__ = __or__

    def __xor__(self, other):
        m = _const_int(other)
        if m == 0:
            return self
        if m == -1:
            return SymInt(-_num(self) - 1)
        unsupported("^ of symbolic integers")

    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(-_num(self) - 1)

    __hash__ = Sym.__hash__


def _real(z):
    return z3.ToReal(z) if z.is_int() else z


class SymInt(_NumMixin):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        v = _const_int(self)
        if v is not None:
            return v
        return CX.concretize(self)

    __int__ = __index__

    def __float__(self):
        unsupported("C-level float() of a symbolic integer")

    def bit_length(self):
        unsupported("bit_length of a symbolic integer")

    @property
    def real(self):
        return self


class SymReal(_NumMixin):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __int__(self):
        unsupported("C-level int() of a symbolic real")

    def __float__(self):
        unsupported("C-level float() of a symbolic real")


class SymBool(_NumMixin):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __init__(self, z):
        self.z = z3.simplify(z) if not z3.is_quantifier(z) else z

    def __bool__(self):
        return CX.fork(self.z)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, other):
        if type(other) is SymBool:
            return SymBool(self.z == other.z)
        if type(other) is bool:
            return SymBool(self.z if other else z3.Not(self.z))
        return _NumMixin.__eq__(self, other)

    def __ne__(self, other):
        r = self.__eq__(other)
        return SymBool(z3.Not(r.z)) if type(r) is SymBool else not r

    def __and__(self, other):
        if type(other) is SymBool:
            return SymBool(z3.And(self.z, other.z))
        if type(other) is bool:
            return self if other else False
        return SymInt(_num(self)) & other

    __rand__ = __and__

    def __or__(self, other):
        if type(other) is SymBool:
            return SymBool(z3.Or(self.z, other.z))
        if type(other) is bool:
            return True if other else self
        return SymInt(_num(self)) | other

    __ror__ = __or__

    def __xor__(self, other):
        if type(other) in (SymBool, bool):
            return self != other
        return SymInt(_num(self)) ^ other

    __rxor__ = __xor__
    __hash__ = Sym.__hash__


# ---- bytes / text as sequences of integers

BYTES = z3.SeqSort(z3.IntSort())
EMPTY = z3.Empty(BYTES)


def seq_of(x):
    """python bytes-like/str or SymBytes -> z3 sequence, or None"""
    if type(x) is SymBytes:
        return x.z
    if isinstance(x, str) and not is_sym(x):
        x = [ord(c) for c in x]
    elif isinstance(x, (bytes, bytearray)):
        x = list(x)
    elif isinstance(x, memoryview):
        x = list(x.tobytes())
    else:
        return None
    if not x:
        return EMPTY
    units = [z3.Unit(z3.IntVal(b)) for b in x]
    return units[0] if len(units) == 1 else z3.Concat(*units)


class SymBytes(Sym):
    """Immutable bytes-like or text value of unknown content; 'kind' is the python class it shows."""

    __slots__ = ("kind", "_z", "rep")

    def __init__(self, z, kind=bytes, rep=None):
        self._z = z
        self.kind = kind
        self.rep = rep  # (number, byte): that many times the same byte; the sequence is only made if needed

    @property
    def z(self):
        if self._z is None:
            n, val = self.rep
            s = CX.mk(CX.fresh_name("rep"), BYTES)
            k = z3.Int("ix!rep")
            CX.assume_z(z3.Length(s) == n)
            CX.assume_z(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), s[k] == val)))
            self._z = s
        return self._z

    @property
    def __class__(self):
        return self.kind

    def symlen(self):
        if self.rep is not None:
            return _wrapnum(self.rep[0])
        return SymInt(z3.simplify(z3.Length(self.z)))

    def __len__(self):
        v = _const_int(self.symlen())
        if v is None:
            unsupported("C-level len() of symbolic data")
        return v

    def __bool__(self):
        return CX.fork(_num(self.symlen()) > 0)

    def __eq__(self, other):
        o = seq_of(other)
        if o is None or issubclass(self.kind, str) != (other.__class__ is str):
            return False
        return SymBool(self.z == o)

    def __ne__(self, other):
        r = self.__eq__(other)
        return SymBool(z3.Not(r.z)) if type(r) is SymBool else not r

    __hash__ = Sym.__hash__

    def __add__(self, other):
        o = seq_of(other)
        if o is None:
            return NotImplemented
        return SymBytes(z3.Concat(self.z, o), self.kind)

    def __radd__(self, other):
        o = seq_of(other)
        if o is None:
            return NotImplemented
        k = other.__class__
        return SymBytes(z3.Concat(o, self.z), k if k in (bytes, bytearray) else self.kind)

    def __mul__(self, n):
        return repeat(self, n)

    __rmul__ = __mul__

    def __getitem__(self, key):
        n = _num(self.symlen())
        if type(key) is slice:
            if key.step not in (None, 1):
                unsupported("slice with a step")

            def bound(v, default):
                if v is None:
                    return default
                b = _num(v)
                if CX.fork(b < 0):
                    return z3.If(n + b < 0, z3.IntVal(0), n + b)
                return z3.If(b > n, n, b)

            lo, hi = bound(key.start, z3.IntVal(0)), bound(key.stop, n)
            if self.rep is not None:
                return SymBytes(None, self.kind, (z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), self.rep[1]))
            return SymBytes(z3.simplify(z3.SubSeq(self.z, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))), self.kind)
        if self.kind is str:
            unsupported("character of a symbolic text")
        i = _num(key)
        if CX.fork(z3.And(i >= 0, i < n)):
            return self.byte(i)
        raise IndexError("index out of range")

    def byte(self, i):
        """the byte at an index known to be valid"""
        if self.rep is not None:
            return self.rep[1]
        return SymInt(self.z[_num(i)])

    def like(self, kind):
        return SymBytes(self._z, kind, self.rep)

    def tobytes(self):
        return self.like(bytes)

    tostring = tobytes

    def cast(self, fmt):
        return self

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    @property
    def nbytes(self):
        return self.symlen()

    itemsize = 1

    def __iter__(self):
        unsupported("iteration over symbolic data")

    def encode(self, *a, **k):
        unsupported("encoding of symbolic text")

    decode = encode


def repeat(unit, n):
    """unit * n"""
    if is_sym(unit) or not isinstance(unit, (bytes, bytearray, str)) or len(set(unit)) > 1 or not len(unit):
        unsupported("repetition of such a sequence")
    if len(unit) != 1:
        unsupported("repetition of several characters")
    val = unit[0] if not isinstance(unit, str) else ord(unit)
    z = _num(n)
    return SymBytes(None, type(unit), (z3.simplify(z3.If(z > 0, z, z3.IntVal(0))), val))


# --------------------------------------------------------------------------------------------------------------
# spec combinators: usable on plain and on symbolic values


def zb(x):
    """truth value -> z3 formula"""
    if type(x) is SymBool:
        return x.z
    if z3.is_expr(x):
        return x
    if is_sym(x):
        return _num(x) != 0
    return z3.BoolVal(bool(x))


def _anysym(xs):
    return any(is_sym(x) or z3.is_expr(x) for x in xs)


def And_(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if _anysym(xs):
        return SymBool(z3.And(*[zb(x) for x in xs]))
    return all(xs)


def Or_(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if _anysym(xs):
        return SymBool(z3.Or(*[zb(x) for x in xs]))
    return any(xs)


def Not_(x):
    if _anysym([x]):
        return SymBool(z3.Not(zb(x)))
    return not x


def Implies_(a, b):
    return Or_(Not_(a), b)


def Iff_(a, b):
    if _anysym([a, b]):
        return SymBool(zb(a) == zb(b))
    return bool(a) == bool(b)


def If_(c, a, b):
    if not _anysym([c]):
        return a if c else b
    if a is b:
        return a
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return SymBool(z3.If(zb(c), zb(a), zb(b)))
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        return _wrapnum(z3.If(zb(c), x, y))
    x, y = seq_of(a), seq_of(b)
    return SymBytes(z3.If(zb(c), x, y), a.__class__)


def Eq_(a, b):
    """equality of values, None, tuples included"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if type(a) in (tuple, list) and type(b) in (tuple, list):
        if len(a) != len(b):
            return False
        return And_([Eq_(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return r


# --------------------------------------------------------------------------------------------------------------
# contexts


class Obligation(object):
    __slots__ = ("name", "status", "detail", "solver_s", "count", "tries")

    def __init__(self, name):
        self.name = name
        self.status = "discharged"  # discharged | refuted | unknown
        self.detail = None
        self.solver_s = 0.0
        self.count = 0
        self.tries = 0


class BaseCx(object):
    symbolic = False
    props = None  # properties being decided; None: all
    head_hook = None  # called at the head of while loops
    back_hook = None  # called at their back edges; lists in 'owned' are then not compared
    owned = ()

    def wants(self, name):
        """obligation names are 'C01,C02:text'; '*' is for all properties"""
        if self.props is None:
            return True
        tags = name.split(":", 1)[0].split(",")
        return any(t == "*" or t in self.props for t in tags)

    def __init__(self):
        self.ghost = {}  # named ghost cells
        self.finished = False
        self.counter = {}

    # deterministic names
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s#%d" % (base, n) if n else base


def solve(solver, *more):
    try:
        return solver.check(*more)
    except z3.Z3Exception:
        return z3.unknown


COMMUTATIVE = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT)


def _canon(e):
    """a text that does not depend on the order in which the simplifier puts operands"""
    if z3.is_quantifier(e):
        return "%s%d(%s)" % ("A" if e.is_forall() else "E", e.num_vars(), _canon(e.body()))
    if z3.is_app(e) and e.num_args():
        a = [_canon(x) for x in e.children()]
        if e.decl().kind() in COMMUTATIVE:
            a.sort()
        return "%s[%s]" % (e.decl().name(), ";".join(a))
    return str(e)


class SymCx(BaseCx):
    symbolic = True

    def __init__(self, engine, prefix):
        BaseCx.__init__(self)
        self.engine = engine
        self.stating = False
        self.decisions = prefix  # list of [choice, n_alternatives]
        self.replayed = len(prefix)  # decisions shared with an earlier path, except the last one
        self.pos = 0
        self.pc = []  # path condition
        self.pc_q = []  # indices of quantified facts
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.fork_timeout)
        self.dead = None
        self.restart = False
        self.loop_ix = []  # indices of the enclosing generic iterations
        self.exact = True
        self.notes = []
        self.const_runs = []
        self.inputs = []  # (name, kind, symbolic value)
        self.journal = []  # mutations of tracked objects
        self.frames = []  # arbitrary iterations being explored
        self.held = 0  # number of mutexes held
        self.covers = set()
        self.pools = []

    # ---- life of the path
    def note_dead(self, kind, msg=""):
        if self.dead is None:
            self.dead = (kind, msg)

    def end(self, kind, msg=""):
        self.note_dead(kind, msg)
        raise PathEnd(kind)

    def alive(self):
        if self.dead is not None:
            raise PathEnd(self.dead[0])
        if self.finished:
            raise PathEnd("finished")

    # ---- terms
    def mk(self, name, sort):
        """A fresh constant; inside generic iterations, a function of their indices."""
        if self.loop_ix:
            f = z3.Function(name, *([z3.IntSort()] * len(self.loop_ix) + [sort]))
            return f(*self.loop_ix)
        return z3.Const(name, sort)

    def _input(self, name, kind, val):
        self.inputs.append((name, kind, val))
        return val

    def int(self, name, lo=None, hi=None, small=None):
        name = self.fresh_name(name)
        v = SymInt(self.mk(name, z3.IntSort()))
        if lo is not None:
            self.assume_z(v.z >= _num(lo))
        if hi is not None:
            self.assume_z(v.z <= _num(hi))
        return self._input(name, "int", v)

    def real(self, name, lo=None):
        name = self.fresh_name(name)
        v = SymReal(self.mk(name, z3.RealSort()))
        if lo is not None:
            self.assume_z(v.z >= lo)
        return self._input(name, "real", v)

    def bool(self, name):
        name = self.fresh_name(name)
        return self._input(name, "bool", SymBool(self.mk(name, z3.BoolSort())))

    def flag(self, name, p=0.5):
        """A decided (concrete) boolean."""
        return builtins.bool(self.bool(name))

    def choice(self, name, options, p=None):
        """One of the options, all of them explored."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        name = self.fresh_name(name)
        v = self.mk(name, z3.IntSort())
        self._input(name, "choice", SymInt(v))
        if name in self.engine.fixed:
            i = self.engine.fixed[name]
            self.assume_z(v == i)
            return options[i]
        for i, o in enumerate(options[:-1]):
            if self.fork(v == i):
                return o
        self.assume_z(v == len(options) - 1)
        return options[-1]

    def optint(self, name, lo=None, hi=None):
        if self.flag(name + "?none"):
            return None
        return self.int(name, lo, hi)

    def bytes(self, name, maxlen=None, kind=bytes):
        name = self.fresh_name(name)
        v = SymBytes(self.mk(name, BYTES), kind)
        if maxlen is not None:
            self.assume_z(z3.Length(v.z) <= _num(maxlen))
        return self._input(name, "bytes", v)

    # ---- facts
    def assume_z(self, f):
        if self.dead is not None:
            raise PathEnd(self.dead[0])
        f = z3.simplify(f) if not _has_quant(f) else f
        if z3.is_true(f):
            return
        self.pc.append(f)
        if _has_quant(f):
            self.pc_q.append(f)
        else:
            self.solver.add(f)
        if z3.is_false(f):
            self.end("infeasible")

    def assume(self, cond):
        self.assume_z(zb(cond))
        if self.pos >= len(self.decisions):
            if solve(self.solver) == z3.unsat:
                self.end("infeasible")

    def _check(self, *fs):
        self.engine.in_time()
        t0 = time.time()
        r = solve(self.solver, *fs)
        self.engine.solver_s += time.time() - t0
        self.engine.solver_calls += 1
        return r

    def entails(self, f):
        return self._check(z3.Not(f)) == z3.unsat

    def feasible_full(self):
        s = z3.Solver()
        s.set("timeout", self.engine.prove_timeout)
        s.add(*self.pc)
        return solve(s) != z3.unsat

    # ---- decisions
    def decide(self, n):
        """Chooses among n alternatives, all of which get explored."""
        self.alive()
        if self.stating:
            unsupported("an obligation makes a choice")
        if self.pos < len(self.decisions):
            c = self.decisions[self.pos][0]
            if self.decisions[self.pos][1] != n or len(self.decisions[self.pos]) > 2:
                raise RuntimeError("pyvc: non deterministic replay of a path")
        else:
            if len(self.decisions) > self.engine.max_depth:
                unsupported("path too long")
            self.decisions.append([0, n])
            c = 0
        self.pos += 1
        return c

    def fork(self, f):
        """Truth value of formula f on this path, exploring both if both are possible."""
        self.alive()
        f = z3.simplify(f) if not _has_quant(f) else f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.stating:
            # the obligation is stated only once for all the paths with this prefix: it may not take decisions
            if self.entails(f):
                return True
            if self.entails(z3.Not(f)):
                return False
            unsupported("an obligation decides something")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if len(d) < 3 or not (d[2].eq(f) or _canon(d[2]) == _canon(f)):
                unsupported("the code does not decide the same things each time it is run")
            if d[1] == "forced":
                return d[0]
            val = d[0] == 0
        else:
            if len(self.decisions) > self.engine.max_depth:
                unsupported("path too long")
            if _has_quant(f):
                can_t = can_f = True
            else:
                can_t = self._check(f) != z3.unsat
                can_f = (self._check(z3.Not(f)) != z3.unsat) if can_t else True
            if can_t and can_f:
                self.decisions.append([0, 2, f])
                val = True
            else:
                self.decisions.append([can_t, "forced", f])
                self.pos += 1
                return can_t
            self.pos += 1
        self.assume_z(f if val else z3.Not(f))
        return val

    def concretize(self, sym):
        """A C-level operation needs a real integer: only possible if the path determines it."""
        self.alive()
        if self._check() == z3.sat:
            m = self.solver.model()
            v = m.eval(sym.z, model_completion=True)
            if z3.is_int_value(v) and self.entails(sym.z == v):
                return v.as_long()
        unsupported("a symbolic integer is used where C code needs a real one")

    # ---- obligations
    def check(self, name, cond, **info):
        self.alive()
        if self.pos < self.replayed:
            return  # done on an earlier path with the same prefix
        if self.wants(name):
            if type(cond) is type(_lam):
                self.stating = True
                try:
                    cond = cond()
                finally:
                    self.stating = False
            self.engine.prove(self, name, zb(cond), info)

    def memo(self, key, f):
        """a formula that is the same on all paths"""
        m = self.engine.memo
        if key not in m:
            m[key] = f()
        return m[key]

    def locks(self, name):
        """An arbitrary list of lock records (handle, shared, start, end or None)."""
        from . import lists

        name = self.fresh_name(name)
        I = z3.IntSort()
        n = z3.Int(name + ".n")
        H, S = z3.Function(name + ".handle", I, I), z3.Function(name + ".shared", I, z3.BoolSort())
        ST, INF = z3.Function(name + ".start", I, I), z3.Function(name + ".inf", I, z3.BoolSort())
        E = z3.Function(name + ".end", I, I)
        j = z3.Int("ix!" + name)
        self.assume_z(n >= 0)
        rec = lambda end: [(SymInt(H(j)), SymBool(S(j)), SymInt(ST(j)), end)]
        l = lists.sym_list(name, n, j, [(INF(j), rec(None)), (z3.Not(INF(j)), rec(SymInt(E(j))))])
        self._input(name, "list", {"n": n, "fields": [H, S, ST, INF, E]})
        return l

    def ints(self, name, lo=0):
        """An arbitrary list of integers."""
        from . import lists

        name = self.fresh_name(name)
        n = z3.Int(name + ".n")
        D = z3.Function(name + ".item", z3.IntSort(), z3.IntSort())
        j = z3.Int("ix!" + name)
        self.assume_z(n >= 0)
        self.assume_z(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), D(j) >= lo)))
        l = lists.sym_list(name, n, j, [(z3.BoolVal(True), [SymInt(D(j))])])
        self._input(name, "list", {"n": n, "fields": [D]})
        return l

    def cover(self, name):
        """Marks that this point is reached on a feasible path (guard against vacuity)."""
        self.alive()
        if name not in self.engine.covered:
            if self.engine.model_of(self, []) is not None:
                self.engine.covered.add(name)
            self.engine.cover_names.add(name)

    def fail(self, name, why=""):
        self.check(name, False, why=why)

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a))


_lam = lambda: None
_hq_cache = {}


def _has_quant(f):
    i = f.get_id()
    r = _hq_cache.get(i)
    if r is not None:
        return r[1]
    if len(_hq_cache) > 400000:
        _hq_cache.clear()
    if z3.is_quantifier(f):
        v = True
    else:
        v = False
        stack, seen = [f], set()
        while stack:
            e = stack.pop()
            k = e.get_id()
            if k in seen:
                continue
            seen.add(k)
            c = _hq_cache.get(k)
            if c is not None:
                if c[1]:
                    v = True
                    break
                continue
            if z3.is_quantifier(e):
                v = True
                break
            if len(seen) > 3000:
                break
            stack.extend(e.children())
    _hq_cache[i] = (f, v)  # keeps f alive, so that the identifier is not reused
    return v


def expand_quant(f, K, memo=None):
    """Replaces the quantifiers over list indices by their instances 0..K-1."""
    if z3.is_quantifier(f):
        n = f.num_vars()
        body = f.body()
        insts = []
        for combo in itertools.product(range(K), repeat=n):
            b = z3.substitute_vars(body, *[z3.IntVal(c) for c in reversed(combo)])
            insts.append(expand_quant(b, K))
        return z3.And(*insts) if f.is_forall() else z3.Or(*insts)
    if z3.is_app(f) and f.num_args() and f.sort() == z3.BoolSort() and _has_quant(f):
        args = [expand_quant(a, K) for a in f.children()]
        return f.decl()(*args) if f.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (
            z3.And(*args) if f.decl().kind() == z3.Z3_OP_AND else z3.Or(*args)
        )
    return f


KNOWN = set()  # obligations which are known not to hold (known findings)


class ConcCx(BaseCx):
    """Concrete run: values come from a dictionary, else from a random generator."""

    symbolic = False

    def __init__(self, values=None, seed=0, mode="random"):
        BaseCx.__init__(self)
        self.values = dict(values or {})
        self.rng = random.Random(seed)
        self.used = {}
        self.failures = []
        self.known = set(KNOWN)
        self.known_hits = []
        self.checks = 0
        self.covered = set()
        self.loop_ix = []
        self.exact = True
        self.trace = []
        self.dead = False  # an assumption has failed: nothing counts any more
        self.pool = [self.rng.randrange(0, 12) for _ in range(4)]

    def alive(self):
        pass

    def give_up(self, why=""):
        self.dead = True
        raise AssumeFailed(why)

    def _get(self, name, draw):
        if name in self.values:
            v = self.values[name]
        else:
            v = draw()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, small=None):
        name = self.fresh_name(name)

        def draw():
            a = lo if lo is not None else -8
            b = hi if hi is not None else a + 24
            r = self.rng.random()
            if r < 0.35:
                c = [p for p in self.pool if p >= a and (hi is None or p <= hi)]
                if c:
                    return self.rng.choice(c)
            if r < 0.45 and hi is None and not small:
                return self.rng.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 5, 2**40 + 1])
            if r < 0.55 and hi is not None:
                return self.rng.choice([a, hi])
            if hi is None or hi - a > 64:
                b = a + 24 if r < 0.9 or hi is None else hi
            return self.rng.randint(a, b)

        v = self._get(name, draw)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            self.give_up(name)
        return v

    def real(self, name, lo=None):
        name = self.fresh_name(name)
        a = lo if lo is not None else 0
        return self._get(name, lambda: self.rng.choice([a, a + 0.05, a + 0.5, a + 1.0, a + 3, a + 7.25]))

    def bool(self, name):
        name = self.fresh_name(name)
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def flag(self, name, p=0.5):
        name = self.fresh_name(name)
        return bool(self._get(name, lambda: self.rng.random() < p))

    def choice(self, name, options, p=None):
        options = list(options)
        if len(options) == 1:
            return options[0]
        name = self.fresh_name(name)
        i = self._get(name, lambda: self.rng.randrange(len(options)) if p is None else (
            0 if self.rng.random() < p else self.rng.randrange(1, len(options))))
        if not (0 <= i < len(options)):
            self.give_up(name)
        return options[i]

    def optint(self, name, lo=None, hi=None):
        if self.flag(name + "?none"):
            return None
        return self.int(name, lo, hi)

    def locks(self, name):
        name = self.fresh_name(name)

        def draw():
            out = []
            for _ in range(self.rng.randint(0, 4)):
                st = self.rng.choice(self.pool) if self.rng.random() < 0.5 else self.rng.randint(0, 20)
                ln = self.rng.choice([1, 1, 2, 3, 5, 8, None, None] + self.pool)
                if ln == 0:
                    ln = None
                out.append((self.rng.choice(self.pool[:3]), self.rng.random() < 0.6, st, ln is None,
                            st + (ln or 0)))
            return out

        raw = self._get(name, draw)
        return [(h, s, st, None if inf else e) for (h, s, st, inf, e) in raw]

    def ints(self, name, lo=0):
        name = self.fresh_name(name)
        raw = self._get(name, lambda: [(self.rng.randint(lo, lo + 30),) for _ in range(self.rng.randint(0, 3))])
        return [x for (x,) in raw]

    def bytes(self, name, maxlen=None, kind=bytes):
        name = self.fresh_name(name)

        def draw():
            m = 12 if maxlen is None else min(12, maxlen)
            n = self.rng.randint(0, m)
            if maxlen is not None and self.rng.random() < 0.2:
                n = min(maxlen, 9000)
            how = self.rng.random()
            if how < 0.1:  # runs of a special byte, and mixtures of them
                return bytes([self.rng.choice(b" \n\r\t\0\xff")]) * n
            if how < 0.2:
                return bytes(self.rng.choice(b" \n\r\0\x1aa\xff") for _ in range(n))
            return bytes(self.rng.randrange(97, 123) for _ in range(n))

        v = self._get(name, draw)
        v = bytes(v)
        if maxlen is not None and len(v) > maxlen:
            self.give_up(name)
        return v.decode("latin1") if kind is str else kind(v)

    def assume(self, cond):
        if self.dead or not cond:
            self.give_up()

    def fork(self, f):
        return bool(f)

    def check(self, name, cond, **info):
        if not self.wants(name):
            return
        self.checks += 1
        if type(cond) is type(_lam):
            cond = cond()
        if not cond:
            if name in self.known:
                self.known_hits.append(name)
                return
            if self.dead:
                raise AssumeFailed()
            self.failures.append((name, info.get("why", "")))
            raise CheckFailed(name)

    def fail(self, name, why=""):
        self.check(name, False, why=why)

    def cover(self, name):
        self.covered.add(name)

    def note(self, *a):
        self.trace.append(" ".join(str(x) for x in a))
