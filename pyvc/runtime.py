"""Helpers called by the instrumented code."""
import builtins
import collections
import operator

import z3

from . import core, lists
from .core import SymBool, SymBytes, SymInt, SymReal, is_sym, seq_of, unsupported, _num
from .lists import MList, SymIter, LazyLen, for_loop, while_loop, UNBOUND, POISON


def _symctx():
    c = core.CX
    return c is not None and c.symbolic and not c.finished


def mk_list(l):
    if _symctx():
        return MList(l)
    return l


def is_(a, b):
    if type(a) is SymBool and type(b) is bool:
        return core.CX.fork(a.z if b else z3.Not(a.z))
    if type(b) is SymBool and type(a) is bool:
        return is_(b, a)
    if type(a) is SymBool and type(b) is SymBool:
        return core.CX.fork(a.z == b.z)
    if is_sym(a) and is_sym(b) and a is not b:
        unsupported("identity of symbolic values")
    if is_sym(a) and isinstance(b, type) or is_sym(b) and isinstance(a, type):
        return a.__class__ is b if is_sym(a) else False
    return a is b


def is_not(a, b):
    return not is_(a, b)


def in_(x, c):
    if type(c) is range and is_sym(x):
        if c.step != 1:
            unsupported("membership in a range with a step")
        return core.And_(x >= c.start, x < c.stop)
    if type(c) is SymIter:
        return builtins.bool(lists.l_exists(MList(segs=c.segs), lambda v: core.Eq_(v, x)))
    if type(c) is MList and not c.concrete():
        return core.CX.fork(core.zb(lists.l_exists(c, lambda v: lists.same_value(v, x))))
    if is_sym(x) and isinstance(c, (set, frozenset, dict, tuple, list)):
        if isinstance(c, dict):
            c = list(c)
        for v in c:
            if v == x:
                return True
        return False
    if type(x) is tuple and any(is_sym(e) for e in x) and isinstance(c, (tuple, list)):
        for v in c:
            if core.Eq_(v, x):
                return True
        return False
    return x in c


def not_in(x, c):
    r = in_(x, c)
    return core.Not_(r)


def _plain(x):
    if is_sym(x):
        return 0 if x.__class__ in (int, bool) else (0.0 if x.__class__ is float else "<data>")
    if type(x) is MList:
        return "<list>"
    if type(x) is tuple:
        return tuple(_plain(e) for e in x)
    return x


def mod(a, b):
    if isinstance(a, str) and not is_sym(a):
        return a % _plain(b)
    return a % b


def fstr(f):
    return f()


def join(obj, arg):
    if isinstance(obj, (bytes, bytearray, str)) and not is_sym(obj):
        if type(arg) is MList or (isinstance(arg, (list, tuple)) and any(is_sym(e) for e in arg)):
            l = arg if type(arg) is MList else MList(arg)
            if l.concrete() and not any(is_sym(e) for e in l.items()):
                return obj.join(l.items())
            if len(obj) == 0:
                z = lists.join_of(l)
                if z is None:
                    unsupported("join of such a list")
                return SymBytes(z, type(obj) if type(obj) is not bytearray else bytes)
            unsupported("join with a separator")
    return obj.join(arg)


def setattr_(obj, name, v):
    c = core.CX
    if c is not None and c.symbolic and not c.finished:
        old = obj.__dict__.get(name, UNBOUND) if hasattr(obj, "__dict__") else UNBOUND
        c.journal.append(("attr", obj, name, old))
    builtins.setattr(obj, name, v)


def setitem(obj, k, v):
    c = core.CX
    if c is not None and c.symbolic and not c.finished and type(obj) is not MList:
        c.journal.append(("item", obj, k))
    obj[k] = v


def delattr_(obj, name):
    c = core.CX
    if c is not None and c.symbolic and not c.finished:
        old = obj.__dict__.get(name, UNBOUND) if hasattr(obj, "__dict__") else UNBOUND
        c.journal.append(("attr", obj, name, old))
    builtins.delattr(obj, name)


def delitem(obj, k):
    c = core.CX
    if c is not None and c.symbolic and not c.finished and type(obj) is not MList:
        c.journal.append(("item", obj, k))
    del obj[k]


def mk_new(obj):
    c = core.CX
    if c is not None and c.symbolic and not c.finished:
        c.journal.append(("new", obj))
    return obj


_PLAIN = (set, dict, bytearray, list, collections.deque, collections.OrderedDict, collections.defaultdict)


def mutate(obj, name, *a):
    c = core.CX
    if c is not None and c.symbolic and not c.finished and type(obj) in _PLAIN:
        c.journal.append(("item", obj, name))
    return getattr(obj, name)(*a)


def getitem(obj, k):
    if type(k) is slice:
        if type(obj) in (bytes, bytearray, memoryview, str) and (is_sym(k.start) or is_sym(k.stop)):
            same = builtins.set(obj)
            if len(same) == 1:  # a run of equal bytes
                return core.repeat(obj[:1] if type(obj) is not memoryview else obj.tobytes()[:1], len(obj))[k]
            return SymBytes(core.seq_of(obj), type(obj))[k]
    elif type(k) is SymInt and type(obj) in (bytes, bytearray, memoryview):
        return SymBytes(core.seq_of(obj), type(obj))[k]
    return obj[k]


_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv, "Mod": operator.imod,
         "FloorDiv": operator.ifloordiv, "Pow": operator.ipow, "LShift": operator.ilshift, "RShift": operator.irshift,
         "BitOr": operator.ior, "BitAnd": operator.iand, "BitXor": operator.ixor, "MatMult": operator.imatmul}


def iop(op, a, b):
    c = core.CX
    if c is not None and c.symbolic and not c.finished:
        if op == "Mod":
            return mod(a, b)
        if type(a) is bytearray and op == "Add":
            if type(b) is SymBytes:
                return a + b
            return a + b if type(b) in (bytes, bytearray, memoryview) else _IOPS[op](a, b)
        if type(a) in _PLAIN:
            c.journal.append(("item", a, op))
    return _IOPS[op](a, b)


# ---- comprehensions


def _bind(shape, v, out):
    if type(shape) is str:
        out[shape] = v
    else:
        v = tuple(v)
        if len(v) != len(shape):
            raise ValueError("not enough values to unpack")
        for s, x in zip(shape, v):
            _bind(s, x, out)


def _noget(n):
    return () if n is None else UNBOUND


def _noset(n, v):
    pass


def comp(kind, spec):
    if not _symctx():
        res = []
        _run_native(spec, res.append)
        if kind == "gen":
            return iter(res)
        return set(res) if kind == "set" else res
    if kind == "gen":
        return GenSpec(spec)
    acc = MList(name="comp")
    _run(spec, acc.append)
    if kind == "set":
        return builtins.set(acc.items())
    return acc


def _run_native(spec, emit):
    if spec is None:
        return
    if spec[0] == "elt":
        emit(spec[1])
        return
    _g, it, lam, shape = spec
    for v in it:
        b = {}
        _bind(shape, v, b)
        _run_native(lam(**b), emit)


def _run(spec, emit):
    """emit returns something to stop"""
    if spec is None:
        return None
    if spec[0] == "elt":
        return emit(spec[1])
    _g, it, lam, shape = spec

    def body(v):
        b = {}
        _bind(shape, v, b)
        return _run(lam(**b), emit)

    return for_loop(it, body, _noget, _noset)


class GenSpec(object):
    """generator expression, evaluated when consumed"""

    def __init__(self, spec):
        self.spec = spec

    def tolist(self):
        acc = MList(name="gen")
        _run(self.spec, lambda v: acc.append(v))
        return acc

    def __iter__(self):
        return iter(self.tolist().items())


# ---- builtins


def _as_list(x):
    return x.tolist() if type(x) is GenSpec else x


def call(f, *a, **k):
    if not _symctx():
        if a and type(a[0]) is GenSpec:
            a = (a[0].tolist(),) + a[1:]
        return f(*a, **k)
    h = _HANDLERS.get(f) if _hashable(f) else None
    if h is None:
        return f(*a, **k)
    return h(f, *a, **k)


def _hashable(f):
    return isinstance(f, type) or type(f) is type(len)


def _len(f, x):
    if type(x) is SymBytes:
        return x.symlen()
    if type(x) is MList:
        return x.symlen()
    if hasattr(type(x), "symlen"):
        return x.symlen()
    return f(x)


def _int(f, *a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return SymInt(_num(x))
        if type(x) is SymReal:  # truncation towards zero
            z = x.z
            return SymInt(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        if hasattr(type(x), "symint"):
            return x.symint()
    return f(*a, **k)


def _bool(f, *a):
    if len(a) == 1:
        if type(a[0]) is SymBool:
            return a[0]
        if type(a[0]) is SymInt:
            return SymBool(a[0].z != 0)
        return True if a[0] else False
    return f(*a)


def _float(f, *a):
    if len(a) == 1 and is_sym(a[0]) and _num(a[0]) is not None:
        return SymReal(core._real(_num(a[0])))
    return f(*a)


def _bytes(f, *a, **k):
    if f is bytes and len(a) == 1 and type(a[0]) in (bytearray, memoryview):
        return bytes(a[0])
    if len(a) == 1 and type(a[0]) is SymBytes:
        return a[0].like(f)
    if len(a) == 1 and is_sym(a[0]):
        return core.repeat(b"\0", a[0])
    return f(*a, **k)


def _memoryview(f, x):
    if type(x) is SymBytes:
        return x.like(memoryview)
    return f(x)


def _list(f, *a):
    if a:
        x = _as_list(a[0])
        if type(x) is SymIter:
            return MList(segs=x.segs)
        if type(x) is MList:
            return x.copy()
        return MList(f(x))
    return MList()


def _tuple(f, *a):
    if a:
        x = _as_list(a[0])
        if type(x) is MList and not x.concrete():
            return x.copy()
        return f(x)
    return f()


def _range(f, *a):
    if any(is_sym(x) for x in a):
        return lists.sym_range(*a)
    return f(*a)


def _enumerate(f, x, *a):
    x = _as_list(x)
    if type(x) is MList and not x.concrete():
        return lists.sym_enumerate(x, *a)
    return f(x, *a)


def _any(f, x):
    if type(x) is GenSpec:
        r = _run(x.spec, lambda v: ("found", None) if v else None)
        return r is not None
    if type(x) is MList and not x.concrete():
        return for_loop(x, lambda v: ("found", None) if v else None, _noget, _noset) is not None
    return f(x)


def _all(f, x):
    if type(x) is GenSpec:
        r = _run(x.spec, lambda v: None if v else ("found", None))
        return r is None
    if type(x) is MList and not x.concrete():
        return for_loop(x, lambda v: None if v else ("found", None), _noget, _noset) is None
    return f(x)


def _minmax(f, *a, **k):
    if len(a) >= 2 and not k and any(is_sym(x) for x in a) and all(_num(x) is not None for x in a):
        r = a[0]
        for x in a[1:]:
            c = (x < r) if f is builtins.min else (x > r)
            r = core.If_(c, x, r)
        return r
    a = tuple(_as_list(x) for x in a)
    return f(*a, **k)


def _generic(f, *a, **k):
    a = tuple(_as_list(x) for x in a)
    if a and type(a[0]) in (MList, SymIter) and not (type(a[0]) is MList and a[0].concrete()):
        unsupported("%s() of a symbolic sequence" % f.__name__)
    return f(*a, **k)


def _set(f, *a):
    if a and hasattr(a[0], "symset"):
        return a[0].symset()
    return mk_new(_generic(f, *a))


def _dict(f, *a, **k):
    return mk_new(_generic(f, *a, **k))


def _filter(f, p, x):
    x = _as_list(x)
    if type(x) is MList:
        acc = MList(name="filter")

        def body(v):
            if p(v) if p is not None else v:
                acc.append(v)

        for_loop(x, body, _noget, _noset)
        return acc
    return f(p, x)


def _map(f, p, *x):
    x = tuple(_as_list(y) for y in x)
    if len(x) == 1 and type(x[0]) is MList:
        acc = MList(name="map")

        def body(v):
            acc.append(p(v))

        for_loop(x[0], body, _noget, _noset)
        return acc
    return f(p, *x)


def _str(f, *a, **k):
    if len(a) == 1 and (is_sym(a[0]) or type(a[0]) is MList):
        return a[0] if type(a[0]) is SymBytes and a[0].kind is str else "<sym>"
    if a and hasattr(a[0], "symset"):
        return a[0]
    return f(*a, **k)


def _reprf(f, a):
    if is_sym(a) or type(a) is MList:
        return "<sym>"
    return f(a)


def _divmod(f, a, b):
    if is_sym(a):
        return a.__divmod__(b)
    return f(a, b)


def _abs(f, a):
    return f(a)


def _pow(f, *a):
    return f(*a)


def _type(f, *a):
    if len(a) == 1 and (is_sym(a[0]) or type(a[0]) is MList):
        return a[0].__class__
    return f(*a)


def _isinstance(f, x, t):
    return f(x, t)


_HANDLERS = {
    builtins.len: _len, builtins.int: _int, builtins.bool: _bool, builtins.float: _float, builtins.bytes: _bytes,
    builtins.bytearray: _bytes, builtins.memoryview: _memoryview, builtins.list: _list, builtins.tuple: _tuple,
    builtins.range: _range, builtins.enumerate: _enumerate, builtins.any: _any, builtins.all: _all,
    builtins.min: _minmax, builtins.max: _minmax, builtins.sum: _generic, builtins.sorted: _generic,
    builtins.set: _set, builtins.frozenset: _set, builtins.filter: _filter, builtins.map: _map, builtins.str: _str,
    builtins.repr: _reprf, builtins.divmod: _divmod, builtins.zip: _generic, builtins.reversed: _generic,
    builtins.next: _generic, builtins.iter: _generic, builtins.dict: _dict, builtins.type: _type,
}


class Runtime(object):
    """the object bound to __pv in the instrumented modules"""

    UNBOUND = UNBOUND
    for_loop = staticmethod(for_loop)
    while_loop = staticmethod(while_loop)
    mk_list = staticmethod(mk_list)
    is_ = staticmethod(is_)
    is_not = staticmethod(is_not)
    in_ = staticmethod(in_)
    not_in = staticmethod(not_in)
    mod = staticmethod(mod)
    fstr = staticmethod(fstr)
    join = staticmethod(join)
    setattr = staticmethod(setattr_)
    setitem = staticmethod(setitem)
    delattr = staticmethod(delattr_)
    delitem = staticmethod(delitem)
    mk_new = staticmethod(mk_new)
    mutate = staticmethod(mutate)
    getitem = staticmethod(getitem)
    iop = staticmethod(iop)
    slice = slice
    comp = staticmethod(comp)
    call = staticmethod(call)


PV = Runtime()
