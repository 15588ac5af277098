"""
Symbolic lists and the loop rules.

A list is a sequence of segments: plain values, and FlatMap segments  [v for j in range(n) for v in alt(j)]  where
alt(j) is selected by mutually exclusive conditions over the index j.  An arbitrary list of the precondition is one
FlatMap of unknown length; what a loop appends to a list is one FlatMap too, which the loop rule computes.
"""
import builtins
import operator

import z3

from . import core
from .core import (
    SymBool, SymBytes, SymInt, SymReal, Sym, PathEnd, Restart, Unsupported, is_sym, unsupported, _num, zb, seq_of, BYTES,
)


class Opaque(object):
    """A value of which the code may only know the identity (compares by name, also across re-executions)."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(o) is Opaque and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Opaque", self.name))

    def __repr__(self):
        return "<%s>" % self.name


class Poison(object):
    """Value of a local variable left over from an unknown earlier iteration."""

    def _die(self, *a, **k):
        unsupported("value carried from an unknown iteration of a loop is used")

    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __add__ = __radd__ = __sub__ = __getitem__ = __lt__ = __gt__ = _die
    __le__ = __ge__ = __call__ = __hash__ = __iadd__ = __isub__ = __contains__ = __int__ = __index__ = _die
    __or__ = __and__ = __ror__ = __rand__ = __ior__ = __iand__ = __enter__ = __exit__ = _die

    def __getattr__(self, name):
        self._die()


POISON = Poison()


def subst(v, pairs):
    """value template -> value, by substitution in its terms"""
    t = type(v)
    if t in (SymInt, SymBool, SymReal):
        z = z3.substitute(v.z, *pairs)
        return t(z)
    if t is SymBytes:
        if v.rep is not None:
            return SymBytes(None, v.kind, (z3.substitute(v.rep[0], *pairs), v.rep[1]))
        return SymBytes(z3.substitute(v.z, *pairs), v.kind)
    if t is tuple:
        return tuple(subst(x, pairs) for x in v)
    if v is None or t in (bool, int, str, bytes, float, Opaque):
        return v
    if isinstance(v, type):
        return v
    if t is Poison:
        return v
    unsupported("value of type %s escapes from a symbolic loop" % t.__name__)


class FlatMap(object):
    def __init__(self, n, j, alts):
        self.n = n  # z3 integer term: indices 0 <= j < n
        self.j = j  # z3 constant standing for the index in alts
        self.alts = alts  # [(z3 condition over j, [values])], conditions mutually exclusive

    def at(self, t):
        p = [(self.j, t)]
        return [(z3.substitute(c, *p), [subst(v, p) for v in vals]) for c, vals in self.alts]

    def one_to_one(self):
        """each index yields exactly one value (syntactically: every alternative has one, and they cover)"""
        if not all(len(v) == 1 for _c, v in self.alts):
            return False
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(self.j >= 0, self.j < self.n)
        s.add(*core.CX.pc)
        s.add(z3.Not(z3.Or([c for c, _v in self.alts])))
        return core.solve(s) == z3.unsat


class BytesRun(object):
    """unknown number of byte strings, of known concatenation"""

    def __init__(self, count, joined, kind):
        self.count, self.joined, self.kind = count, joined, kind


class MList(object):
    """list of the instrumented code"""

    def __init__(self, items=(), segs=None, name="list"):
        cx = core.CX
        self.uid = cx.fresh_name("mlist:" + name)
        self._segs = [("v", x) for x in items] if segs is None else list(segs)
        cx.lists[self.uid] = self

    @property
    def __class__(self):
        return list

    @property
    def segs(self):
        cx = core.CX
        if cx is not None and cx.symbolic:
            for f in cx.frames:
                f.lreads.add(self.uid)
        return self._segs

    @segs.setter
    def segs(self, v):
        self._segs = v

    # ---- helpers
    def concrete(self):
        return all(type(s) is tuple for s in self.segs)

    def items(self):
        if not self.concrete():
            unsupported("enumeration of a list of unknown content")
        return [s[1] for s in self.segs]

    def _mut(self, op, *args):
        cx = core.CX
        if cx.finished:
            return
        cx.alive()
        cx.journal.append(("list", self.uid, op, args))

    # ---- list interface
    def append(self, v):
        self._mut("append", v)
        self._segs.append(("v", v))

    def extend(self, it):
        if type(it) is MList:
            if it.concrete():
                for v in it.items():
                    self.append(v)
            else:
                for sg in list(it.segs):
                    self._add_seg(sg)
        else:
            for v in it:
                self.append(v)

    def _add_seg(self, sg):
        self._mut("append", sg[1]) if type(sg) is tuple else self._mut("seg", sg)
        self._segs.append(sg)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, it):
        r = MList(segs=self.segs)
        r.extend(it)
        return r

    def insert(self, i, v):
        if i == 0 and type(i) is int:
            self._mut("insert", v)
            self.segs.insert(0, ("v", v))
        elif self.concrete():
            l = self.items()
            l.insert(i, v)
            self._mut("insert", v)
            self.segs = [("v", x) for x in l]
        else:
            unsupported("insert in a list of unknown content")

    def __getattr__(self, name):
        if hasattr(list, name) and not (name.startswith("__") and name.endswith("__")):
            unsupported("list.%s" % name)
        raise AttributeError("'list' object has no attribute %r" % name)

    def count(self, x):
        r = 0
        for v in self.items():
            if v is x or v == x:
                r += 1
        return r

    def index(self, x, *a):
        l = self.items()
        for i in range(*slice(*(list(a) + [None] * (2 - len(a)))).indices(len(l))):
            if l[i] is x or l[i] == x:
                return i
        raise ValueError("value is not in list")

    def sort(self, **k):
        l = self.items()
        l.sort(**k)
        self._mut("assign")
        self.segs = [("v", x) for x in l]

    def reverse(self):
        l = self.items()
        self._mut("assign")
        self.segs = [("v", x) for x in reversed(l)]

    def __mul__(self, n):
        if is_sym(n):
            unsupported("repetition of a list")
        return MList(self.items() * n)

    __rmul__ = __mul__

    def __radd__(self, it):
        r = MList(it)
        r.extend(self)
        return r

    def _cmp(self, o, op):
        if not isinstance(o, list):
            return NotImplemented
        return op(self.items(), o.items() if type(o) is MList else o)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def clear(self):
        self._mut("clear")
        self.segs = []

    def copy(self):
        return MList(segs=self.segs)

    def __iter__(self):
        return iter(self.items())

    def __reversed__(self):
        return reversed(self.items())

    def __len__(self):
        return len(self.items())

    def symlen(self):
        total = 0
        for s in self.segs:
            if type(s) is tuple:
                total = total + 1
            elif type(s) is FlatMap and s.one_to_one():
                total = total + SymInt(z3.If(s.n > 0, s.n, z3.IntVal(0)))
            elif type(s) is BytesRun:
                total = total + SymInt(s.count)
            else:
                return LazyLen(self)
        return total

    def nonempty(self):
        """z3 formula"""
        fs = []
        for s in self.segs:
            if type(s) is tuple:
                return z3.BoolVal(True)
            if type(s) is BytesRun:
                fs.append(s.count > 0)
            else:
                c = z3.Or([c for c, v in s.alts if v])
                fs.append(_exists(s.j, s.n, c))
        return z3.Or(fs) if fs else z3.BoolVal(False)

    def __bool__(self):
        cx = core.CX
        fs = []
        for s in self.segs:
            if type(s) is tuple:
                return True
        for s in self.segs:
            if type(s) is BytesRun:
                if cx.fork(s.count > 0):
                    return True
                continue
            # decide whether segment is empty; give a witness if not
            covering = s.one_to_one()
            if covering:
                if cx.fork(s.n > 0):
                    return True
                continue
            c = z3.Or([c for c, v in s.alts if v])
            if cx.fork(_exists(s.j, s.n, c)):
                return True
        return False

    def __contains__(self, x):
        for v in self.items():
            if v is x or v == x:
                return True
        return False

    def __eq__(self, o):
        if type(o) is MList or type(o) is list:
            a, b = self.segs, (o.segs if type(o) is MList else [("v", x) for x in o])
            if not b:
                return not self
            if not a:
                return not o
            return core.Eq_(self.items(), list(o))
        return False

    def __ne__(self, o):
        return core.Not_(self == o)

    __hash__ = None

    def _locate(self, i):
        """index -> ('v', position) or ('f', FlatMap, index term)"""
        if not is_sym(i) and isinstance(i, int) and self.concrete():
            n = len(self.segs)
            if i < -n or i >= n:
                raise IndexError("list index out of range")
            return ("v", i % n)
        if len(self.segs) == 1 and type(self.segs[0]) is FlatMap and self.segs[0].one_to_one():
            s = self.segs[0]
            cx = core.CX
            z = _num(i)
            if cx.fork(z < 0):
                z = s.n + z
            if not cx.fork(z3.And(z >= 0, z < s.n)):
                raise IndexError("list index out of range")
            return ("f", s, z)
        # leading concrete part
        if not is_sym(i) and isinstance(i, int):
            if i >= 0 and all(type(s) is tuple for s in self.segs[: i + 1]) and i < len(self.segs):
                return ("v", i)
            if i < 0 and -i <= len(self.segs) and all(type(s) is tuple for s in self.segs[i:]):
                return ("v", len(self.segs) + i)
        unsupported("indexing of a list of unknown content")

    def __getitem__(self, i):
        if type(i) is slice:
            if self.concrete():
                return MList(self.items()[i])
            if i == slice(None, None, None) or (i.start in (None, 0) and i.stop is None and i.step is None):
                return self.copy()
            unsupported("slice of a list of unknown content")
        w = self._locate(i)
        if w[0] == "v":
            return self.segs[w[1]][1]
        for c, vals in w[1].at(w[2]):
            if core.CX.fork(c):
                return vals[0]
        core.CX.end("infeasible")

    def __setitem__(self, i, v):
        if type(i) is slice:
            if i == slice(None, None, None):
                new = list(v.segs) if type(v) is MList else [("v", x) for x in v]
                self._mut("assign")
                self.segs = new
                return
            unsupported("slice assignment")
        w = self._locate(i)
        if w[0] != "v":
            unsupported("assignment to an element of a list of unknown content")
        old = self.segs[w[1]][1]
        self._mut("setitem", w[1], old, v)
        self.segs[w[1]] = ("v", v)

    def __delitem__(self, i):
        if type(i) is slice:
            if i == slice(None, None, None):
                self.clear()
                return
            unsupported("deletion of a slice")
        w = self._locate(i)
        self._mut("del")
        if w[0] == "v":
            del self.segs[w[1]]
        else:
            s, t = w[1], w[2]
            self.segs = [FlatMap(s.n, s.j, [(z3.And(c, s.j != t), v) for c, v in s.alts])]

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def index(self, x):
        if self.concrete():
            for k, v in enumerate(self.items()):
                if v is x or v == x:
                    return k
            raise ValueError("not in list")
        unsupported("index in a list of unknown content")

    def remove(self, x):
        if self.concrete():
            del self[self.index(x)]
            return
        for j, v in _enum_segs(self):
            pass
        unsupported("remove in a list of unknown content")

    def sort(self, *a, **k):
        l = self.items()
        l.sort(*a, **k)
        self.segs = [("v", x) for x in l]

    def reverse(self):
        l = self.items()
        self.segs = [("v", x) for x in reversed(l)]

    def __repr__(self):
        return "<symlist %s>" % self.uid


def _enum_segs(l):
    return ()


class LazyLen(object):
    """length of a list only known to be zero or not"""

    def __init__(self, l):
        self.l = l

    def __bool__(self):
        return bool(self.l)

    def __eq__(self, o):
        if type(o) is int and o == 0:
            return not self.l
        unsupported("length of a filtered list")

    def __ne__(self, o):
        return not (self == o)

    def __gt__(self, o):
        if type(o) is int and o == 0:
            return bool(self.l)
        unsupported("length of a filtered list")

    def __ge__(self, o):
        if type(o) is int and o == 1:
            return bool(self.l)
        unsupported("length of a filtered list")

    def __lt__(self, o):
        if type(o) is int and o == 1:
            return not self.l
        unsupported("length of a filtered list")

    def __le__(self, o):
        if type(o) is int and o == 0:
            return not self.l
        unsupported("length of a filtered list")

    __hash__ = None


def _bvar(j):
    return z3.Int("ix!%s" % j)


def _forall(j, lo, hi, body):
    """forall lo <= j < hi: body"""
    body = z3.simplify(body) if not core._has_quant(body) else body
    if z3.is_true(body):
        return z3.BoolVal(True)
    if z3.is_false(body):
        return hi <= lo
    return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), body))


def _exists(j, n, body):
    body = z3.simplify(body) if not core._has_quant(body) else body
    if z3.is_false(body):
        return z3.BoolVal(False)
    if z3.is_true(body):
        return n > 0
    return z3.Exists([j], z3.And(j >= 0, j < n, body))


# ---- specification of lists


def norm(v):
    """values -> comparable tuples of z3 terms: (int|bool|..., None-flag)"""
    out = []
    for x in v if type(v) is tuple else (v,):
        if x is None:
            out.append((z3.BoolVal(True), z3.IntVal(0)))
        elif type(x) in (SymBool, bool):
            out.append((z3.BoolVal(False), z3.If(zb(x), z3.IntVal(1), z3.IntVal(0))))
        elif _num(x) is not None:
            out.append((z3.BoolVal(False), _num(x)))
        elif type(x) is Opaque or isinstance(x, (str, bytes)):
            out.append((z3.BoolVal(False), z3.IntVal(_code(x))))
        else:
            unsupported("record holds a %s" % type(x).__name__)
    return out


_codes = {}


def _code(x):
    k = x.name if type(x) is Opaque else x
    return _codes.setdefault(k, 10**6 + len(_codes))


def tuples_equal(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    return z3.And([z3.And(x[0] == y[0], z3.Or(x[0], x[1] == y[1])) for x, y in zip(a, b)])


def l_forall(lst, pred):
    """forall v in lst: pred(v); pred takes a value (python tuple, None for missing ends)"""
    if not isinstance(lst, MList) and type(lst) is not MList:
        return core.And_([pred(v) for v in lst])
    fs = []
    for s in lst.segs:
        if type(s) is tuple:
            fs.append(zb(pred(s[1])))
        else:
            fs.append(_forall(s.j, z3.IntVal(0), s.n,
                              z3.And([z3.Implies(c, z3.And([zb(pred(v)) for v in vals])) for c, vals in s.alts])))
    return SymBool(z3.And(fs)) if fs else True


def l_exists(lst, pred):
    if type(lst) is not MList:
        return core.Or_([pred(v) for v in lst])
    fs = []
    for s in lst.segs:
        if type(s) is tuple:
            fs.append(zb(pred(s[1])))
        else:
            fs.append(_exists(s.j, s.n, z3.Or([z3.And(c, z3.Or([zb(pred(v)) for v in vals])) for c, vals in s.alts])))
    return SymBool(z3.Or(fs)) if fs else False


def l_pairwise(lst, pred):
    """forall two different positions of lst: pred(u, v) (symmetric)"""
    if type(lst) is not MList:
        l = list(lst)
        return core.And_([pred(l[a], l[b]) for a in range(len(l)) for b in range(a)])
    fs = []
    segs = lst.segs
    cx = core.CX
    for a in range(len(segs)):
        for b in range(a + 1):
            x, y = segs[a], segs[b]
            if a == b:
                if type(x) is tuple:
                    continue
                k = z3.Int(cx.fresh_name("ix!pair"))
                other = x.at(k)
                body = []
                for c1, v1 in x.alts:
                    for p in range(len(v1)):
                        for q in range(p):
                            body.append(z3.Implies(c1, zb(pred(v1[p], v1[q]))))
                    for c2, v2 in other:
                        for u in v1:
                            for w in v2:
                                body.append(z3.Implies(z3.And(c1, c2), zb(pred(u, w))))
                if body:
                    fs.append(z3.ForAll([x.j, k], z3.Implies(
                        z3.And(x.j >= 0, x.j < x.n, k >= 0, k < x.n, x.j != k), z3.And(body))))
            else:
                fs.append(zb(_cross(x, y, pred, cx)))
    return SymBool(z3.And(fs)) if fs else True


def _cross(x, y, pred, cx):
    if type(x) is tuple and type(y) is tuple:
        return pred(x[1], y[1])
    if type(x) is tuple:
        return SymBool(_forall(y.j, z3.IntVal(0), y.n, z3.And(
            [z3.Implies(c, z3.And([zb(pred(x[1], v)) for v in vals])) for c, vals in y.alts])))
    if type(y) is tuple:
        return _cross(y, x, pred, cx)
    k = z3.Int(cx.fresh_name("ix!pair"))
    other = y.at(k)
    body = []
    for c1, v1 in x.alts:
        for c2, v2 in other:
            for u in v1:
                for w in v2:
                    body.append(z3.Implies(z3.And(c1, c2), zb(pred(u, w))))
    if not body:
        return True
    return SymBool(z3.ForAll([x.j, k], z3.Implies(
        z3.And(x.j >= 0, x.j < x.n, k >= 0, k < y.n), z3.And(body))))


def l_empty(lst):
    if type(lst) is not MList:
        return not lst
    return SymBool(z3.Not(lst.nonempty()))


def same_value(u, v):
    """equality of two list values (tuples with None)"""
    if core.CX.symbolic:
        return SymBool(tuples_equal(norm(u), norm(v)))
    return u == v or (type(u) is tuple and tuple(u) == tuple(v))


def freeze(lst):
    """snapshot of a list, unaffected by later mutations"""
    if type(lst) is MList:
        m = MList.__new__(MList)
        m.uid = None
        m.segs = list(lst.segs)
        return m
    return list(lst)


def sym_list(name, n, j, alts):
    return MList(segs=[FlatMap(n, j, alts)], name=name)


# --------------------------------------------------------------------------------------------------------------
# loop rules


class _LoopOut(object):
    __slots__ = ("cond", "j", "locals", "journal", "frame", "ghost")


class Frame(object):
    """what an arbitrary iteration reads before writing it"""

    def __init__(self):
        self.reads, self.writes, self.lreads = set(), set(), set()


def for_loop(it, body, getl, setl):
    """
    body(elem) -> None when the iteration falls through or continues, else the way it leaves the loop.
    """
    cx = core.CX
    if cx is None or not cx.symbolic:
        for v in it:
            r = body(v)
            if r is not None:
                return r
        return None
    if type(it) is SymIter:
        segs = it.segs
    elif type(it) is MList:
        segs = list(it.segs)
        if it.concrete():
            # python semantics: sees later appends; sizes are small here
            k = 0
            while k < len(it.segs):
                s = it.segs[k]
                if type(s) is not tuple:
                    unsupported("a list changes its nature while it is iterated")
                r = body(s[1])
                if r is not None:
                    return r
                k += 1
            return None
    else:
        for v in it:
            r = body(v)
            if r is not None:
                return r
        return None
    for s in segs:
        if type(s) is tuple:
            r = body(s[1])
        elif type(s) is FlatMap:
            r = _generic_loop(s, body, getl, setl)
        else:
            unsupported("iteration over data of unknown structure")
        if r is not None:
            return r
    return None


class SymIter(object):
    """result of enumerate/range/... over symbolic lists"""

    def __init__(self, segs):
        self.segs = segs

    def __iter__(self):
        if all(type(s) is tuple for s in self.segs):
            return iter([s[1] for s in self.segs])
        unsupported("C-level iteration over a symbolic sequence")


def sym_enumerate(l, start=0):
    segs = []
    pos = start
    for s in l.segs:
        if type(s) is tuple:
            segs.append(("v", (pos, s[1])))
            pos = pos + 1
        elif type(s) is FlatMap and s.one_to_one():
            base = pos
            segs.append(FlatMap(s.n, s.j, [(c, [(SymInt(s.j + _num(base)), v[0])]) for c, v in s.alts]))
            pos = pos + SymInt(z3.If(s.n > 0, s.n, z3.IntVal(0)))
        else:
            unsupported("enumerate over a filtered list")
    return SymIter(segs)


def sym_range(*a):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3 and core._const_int(a[2]) != 1:
        unsupported("range with a step")
    j = z3.Int(core.CX.fresh_name("ix!range"))
    return SymIter([FlatMap(_num(hi) - _num(lo), j, [(z3.BoolVal(True), [SymInt(z3.simplify(j + _num(lo)))])])])


def _generic_loop(seg, body, getl, setl):
    cx = core.CX
    mode = cx.decide(3)
    key = ("for",) + tuple(d[0] for d in cx.decisions[: cx.pos - 1])
    table = cx.engine.loop_table
    names = getl(None)
    before = {n: getl(n) for n in names}
    always = cx.engine.loop_always.setdefault(key, {})

    def run(ix):
        for c, vals in seg.at(ix):
            if not vals:
                continue
            if cx.fork(c):
                for v in vals:
                    r = body(v)
                    if r is not None:
                        return r
                return None
        return None

    if mode == 0:
        outs = table.setdefault(key, [])
        j = z3.Int(cx.fresh_name("ix!loop"))
        cx.assume_z(z3.And(j >= 0, j < seg.n))
        cx.loop_ix.append(j)
        mark, jmark = len(cx.pc), len(cx.journal)
        for n in names:
            setl(n, POISON)
        for g, c in always.items():
            if cx.fork(j > 0):
                cx.ghost.setq(g, c)
        frame = Frame()
        cx.frames.append(frame)
        held = cx.held
        try:
            r = run(j)
        except (PathEnd, Unsupported, Restart):
            raise
        except BaseException as e:
            cx.end("collected", "exit by exception")
        finally:
            cx.frames.pop()
        if r is None:
            if cx.held != held:
                unsupported("a loop over an unknown list acquires or releases a mutex")
            o = _LoopOut()
            o.cond = z3.And(cx.pc[mark:]) if len(cx.pc) > mark else z3.BoolVal(True)
            o.j = j
            o.locals = {n: getl(n) for n in names}
            o.journal = list(cx.journal[jmark:])
            o.frame = frame
            o.ghost = dict(cx.ghost)
            outs.append(o)
        cx.end("collected")

    outs = table.get(key, [])
    j = z3.Int(cx.fresh_name("ix!loop"))  # same name as in collect mode
    if outs and not outs[0].j.eq(j):
        raise RuntimeError("pyvc: non deterministic names")
    through = z3.Or([o.cond for o in outs]) if outs else z3.BoolVal(False)
    if mode == 1:
        i = z3.Int(cx.fresh_name("ix!exit"))
        cx.assume_z(z3.And(i >= 0, i < seg.n))
        cx.assume_z(_forall(j, z3.IntVal(0), i, through))
        _apply(cx, outs, j, i, names, before, setl, always)
        cx.loop_ix.append(i)
        r = run(i)
        if r is None:
            cx.end("infeasible", "no exit at this index")
        cx.loop_ix.pop()
        return r
    cx.assume_z(_forall(j, z3.IntVal(0), seg.n, through))
    _apply(cx, outs, j, seg.n, names, before, setl, always)
    return None


def _only_first(cx, o, j):
    """can this iteration only be the first one?"""
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*[f for f in cx.pc if not core._has_quant(f)])
    s.add(j > 0, *[f for f in (o.cond.children() if z3.is_and(o.cond) else [o.cond]) if not core._has_quant(f)])
    return core.solve(s) == z3.unsat


def _one_shot(cx, o, j, n, segs):
    """segments appended by the first iteration if it goes through o"""
    p = [(j, z3.IntVal(0))]
    c0 = z3.simplify(z3.And(n > 0, z3.substitute(o.cond, *p)))
    out = []
    for sg in segs:
        if type(sg) is tuple:
            k = z3.Int(cx.fresh_name("ix!one"))
            out.append(FlatMap(z3.If(c0, z3.IntVal(1), z3.IntVal(0)), k, [(z3.BoolVal(True), [subst(sg[1], p)])]))
        elif type(sg) is FlatMap:
            out.append(FlatMap(z3.If(c0, z3.substitute(sg.n, *p), z3.IntVal(0)), sg.j,
                               [(z3.substitute(c, *p), [subst(v, p) for v in vs]) for c, vs in sg.alts]))
        else:
            unsupported("a loop over an unknown list adds data of unknown structure to a list")
    return out


def _apply(cx, outs, j, n, names, before, setl, always):
    """effects of the iterations 0..n-1, all of which fall through"""
    lists = {}
    ghosts = {}
    cx.fresh_name("ix!fm")
    for g, c in always.items():
        if any(o.ghost.get(g) != c for o in outs):
            unsupported("ghost state %s changes in several ways in a loop" % g)
    for o in outs:
        new = []
        for e in o.journal:
            if e[0] == "new":
                new.append(e[1])
            elif e[0] in ("attr", "item") and any(x is e[1] for x in new):
                continue
            elif e[0] == "list":
                _k, uid, op, args = e
                if uid not in cx.lists:
                    continue  # created inside the body
                if op not in ("append", "seg"):
                    unsupported("a loop over an unknown list does %r on a list" % op)
                if any(uid in x.frame.lreads for x in outs):
                    unsupported("the iterations of a loop over an unknown list depend on a list they modify")
                lists.setdefault(uid, {}).setdefault(id(o), []).append(("v", args[0]) if op == "append" else args[0])
            elif e[0] == "ghost":
                ghosts.setdefault(e[1], {})[id(o)] = e[2]
            elif e[0] == "ignore":
                pass
            else:
                unsupported("a loop over an unknown list modifies %s" % (e[1:3],))
    for name, per in ghosts.items():
        if name not in always and any(name in o.frame.reads for o in outs):
            ends = [o.ghost.get(name) for o in outs]
            if type(ends[0]) not in (bool, int, str) or any(type(e) is not type(ends[0]) or e != ends[0] for e in ends):
                unsupported("the iterations of a loop depend on ghost state %s, which they change" % name)
            always[name] = ends[0]
            core.restart()
    for uid, per in lists.items():
        alts = []
        for o in outs:
            segs = per.get(id(o), [])
            if any(type(sg) is not tuple for sg in segs):
                if not _only_first(cx, o, j):
                    unsupported("a loop over an unknown list adds several lists to a list")
                for sg in _one_shot(cx, o, j, n, segs):
                    cx.lists[uid]._add_seg(sg)
                segs = []
            alts.append((o.cond, [sg[1] for sg in segs]))
        # check templates now
        for _c, vals in alts:
            for v in vals:
                subst(v, [(j, j)])
        if any(vals for _c, vals in alts):
            cx.lists[uid]._add_seg(FlatMap(n, j, alts))
    for name, per in ghosts.items():
        if name in always:
            continue
        try:
            v = _const_set(cx, [(o.cond, per[id(o)]) for o in outs if id(o) in per], j, n, UNBOUND)
        except _NotConst:
            unsupported("a loop over an unknown list computes ghost state %s" % name)
        if v is not UNBOUND:
            cx.ghost[name] = v
    for g, c in always.items():
        if cx.fork(n > 0):
            cx.ghost[g] = c
    for nm in names:
        sets = [(o.cond, o.locals.get(nm, POISON)) for o in outs]
        if nm in before and before[nm] is not UNBOUND and all(v is POISON for _c, v in sets):
            setl(nm, before[nm])  # never assigned on fall-through
            continue
        changed = [(c, v) for c, v in sets if v is not POISON]
        if before[nm] is not UNBOUND and changed and len(changed) < len(sets) or (
            before[nm] is not UNBOUND and changed and all(type(v) in (bool, int, str, type(None)) for _c, v in changed)
        ):
            try:
                setl(nm, _const_set(cx, changed, j, n, before[nm]))
                continue
            except _NotConst:
                pass
        if outs:
            setl(nm, POISON)
        else:
            setl(nm, before[nm]) if before[nm] is not UNBOUND else None


class _NotConst(Exception):
    pass


class _Unbound(object):
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


def _const_set(cx, sets, j, n, old):
    vals = [v for _c, v in sets]
    c0 = vals[0]
    if type(c0) not in (bool, int, str, type(None), Opaque) or any(type(v) is not type(c0) or v != c0 for v in vals):
        raise _NotConst()
    some = _exists(j, n, z3.Or([c for c, _v in sets]))
    if cx.fork(some):
        return c0
    return old


# ---- while loops


class WInfo(object):
    def __init__(self):
        self.widened = {}  # component -> "value" | "poison"
        self.kinds = {}  # component -> kinds of its values
        self.dead = set()  # refuted candidate invariants


def _kindof(v):
    if type(v) in (bool, SymBool):
        return "bool"
    if type(v) is SymReal or type(v) is float:
        return "real"
    if type(v) is SymInt or (isinstance(v, int) and not is_sym(v)):
        return "int"
    if type(v) is SymBytes:
        return ("bytes", v.kind)
    if isinstance(v, (bytes, bytearray, str)):
        return ("bytes", type(v))
    return None


def _ukind(v):
    return "none" if v is None else _kindof(v)


def _data(kinds):
    """None or data of these types"""
    return all(k == "none" or type(k) is tuple for k in kinds)


def _fresh_of(cx, name, kinds):
    """a value of one of these kinds"""
    kinds = sorted(kinds, key=str)
    for kind in kinds[:-1]:
        if SymBool(cx.mk(cx.fresh_name("w:kind:" + name), z3.BoolSort())):
            break
    else:
        kind = kinds[-1]
    return None if kind == "none" else _fresh_like(cx, name, kind)


class OtherKind(Exception):
    """a candidate invariant speaks of values of another kind"""


def _fresh_like(cx, name, kind):
    nm = cx.fresh_name("w:" + name)
    if kind == "bool":
        return SymBool(cx.mk(nm, z3.BoolSort()))
    if kind == "int":
        return SymInt(cx.mk(nm, z3.IntSort()))
    if kind == "real":
        return SymReal(cx.mk(nm, z3.RealSort()))
    return SymBytes(cx.mk(nm, BYTES), kind[1])


def join_of(l):
    """concatenation of a list of byte strings, as z3 sequence; and kind"""
    parts = []
    for s in l.segs:
        if type(s) is tuple:
            q = seq_of(s[1])
            if q is None:
                return None
            parts.append(q)
        elif type(s) is BytesRun:
            parts.append(s.joined)
        else:
            return None
    if not parts:
        return core.EMPTY
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def while_loop(cond, body, getl, setl, static, reads=()):
    cx = core.CX
    if cx is None or not cx.symbolic:
        while cond():
            r = body()
            if r is not None:
                return r
        return None
    key = cx.fresh_name("while:" + static)
    eng = cx.engine
    names = getl(None)
    consts = {}
    for n, f in reads:  # variables the loop reads and does not assign
        try:
            v = f()
        except NameError:
            continue
        if _kindof(v) == "int" or type(_kindof(v)) is tuple:
            consts["c:" + n] = v

    def comps():
        c = dict(consts)
        for n in names:
            c["l:" + n] = getl(n)
        for g in cx.ghost:
            c["g:" + g] = cx.ghost.peek(g)
        for u, l in cx.lists.items():
            if u not in cx.owned:
                c["m:" + u] = l
        return c

    if cx.head_hook is not None:
        cx.head_hook(cx)

    start = comps()
    start = {k: (freeze(v) if type(v) is MList else v) for k, v in start.items()}
    kinds = tuple((k, _ukind(v)) for k, v in start.items() if _ukind(v) is not None and _data({_ukind(v)}))
    info = eng.while_info.setdefault((key, kinds if any(k != "none" for _n, k in kinds) else ()), WInfo())
    # havoc what is known to change
    if info.widened:
        cx.exact = False
    for k in list(start):
        how = info.widened.get(k)
        if how is None:
            continue
        v = start[k]
        if k[0] == "m":
            l = cx.lists[k[2:]]
            cnt = cx.mk(cx.fresh_name("w:cnt:" + k), z3.IntSort())
            js = cx.mk(cx.fresh_name("w:join:" + k), BYTES)
            cx.assume_z(cnt >= 0)
            cx.assume_z(z3.Implies(cnt == 0, js == core.EMPTY))
            l.segs = [BytesRun(cnt, js, bytes)]
            continue
        if how == "poison":
            new = POISON
        else:
            new = _fresh_of(cx, k, info.kinds.get(k, set()) | {_ukind(v)})
        if k[0] == "l":
            setl(k[2:], new)
        else:
            cx.ghost.setq(k[2:], new)

    cands = _candidates(cx, start, info, comps)
    entry = [(name, f0) for name, f0, _f1 in cands if name not in info.dead and not z3.is_true(f0)]
    if entry and not eng.valid(cx, z3.And([f0 for _n, f0 in entry])):
        bad = [name for name, f0 in entry if not eng.valid(cx, f0)]  # do not hold on entry
        if bad:
            info.dead.update(bad)
            core.restart()
    live = [(name, f1) for name, _f0, f1 in cands if name not in info.dead]
    for _name, f1 in live:
        f = f1(comps())
        if f is not None:
            cx.assume_z(f)
    head = comps()
    head = {k: (freeze(v) if type(v) is MList else v) for k, v in head.items()}
    jmark = len(cx.journal)
    if not cond():
        return None
    r = body()
    if r is not None:
        return r
    # back edge
    now = comps()
    restart = False
    if not info.widened and any(k in head and not _same(cx, eng, head[k], v) for k, v in now.items()):
        if not cond():
            return None  # one iteration was enough on this path
    for k, v in now.items():
        if k not in head:
            continue  # created in the body
        if k in info.widened:
            if k in info.kinds and info.widened[k] == "value" and _ukind(v) not in info.kinds[k]:
                restart = True
                if not _data(info.kinds[k] | {_ukind(v)}):
                    info.widened[k] = "poison"
                    if k[0] == "g":
                        unsupported("ghost state %s changes its type in a loop" % k)
                else:
                    info.kinds[k].add(_ukind(v))
            continue
        if _same(cx, eng, head[k], v):
            continue
        restart = True
        if k[0] == "m":
            if join_of(now[k]) is None or join_of(head[k]) is None:
                unsupported("a while loop changes a list in an unsupported way")
            info.widened[k] = "value"
        else:
            ka, kb = _ukind(head[k]), _ukind(v)
            info.widened[k] = "value" if ka is not None and ka == kb or _data({ka, kb}) else "poison"
            info.kinds.setdefault(k, set()).update((ka, kb))
            if info.widened[k] == "poison" and k[0] == "g":
                unsupported("ghost state %s changes its type in a loop" % k)
    new = []
    for e in cx.journal[jmark:]:
        if e[0] == "new":
            new.append(e[1])
        elif e[0] in ("attr", "item") and any(x is e[1] for x in new):
            continue
        elif e[0] == "attr":
            _k, obj, name, old = e
            cur = getattr(obj, name, UNBOUND) if name[0] != "[" else None
            if cur is not None and not _same(cx, eng, old, cur):
                unsupported("a while loop modifies attribute %s" % name)
        elif e[0] == "item":
            unsupported("a while loop modifies a container")
    if not restart and cx.back_hook is not None:
        cx.back_hook(cx)
    if restart:
        core.restart()
    back = [(name, f1(now)) for name, f1 in live]
    if back and (any(f is None for _n, f in back) or not eng.valid(cx, z3.And([f for _n, f in back]))):
        bad = [name for name, f in back if f is None or not eng.valid(cx, f)]
        if bad:
            info.dead.update(bad)
            core.restart()
    cx.end("cut", "loop invariant preserved")


def _same(cx, eng, a, b):
    if a is b:
        return True
    if a is UNBOUND or b is UNBOUND:
        return False
    if type(a) is MList or type(b) is MList:
        if type(a) is not type(b):
            return False
        if len(a.segs) != len(b.segs):
            return False
        return all(x is y or (type(x) is tuple and type(y) is tuple and _same(cx, eng, x[1], y[1]))
                   for x, y in zip(a.segs, b.segs))
    ka, kb = _kindof(a), _kindof(b)
    if ka is None or kb is None:
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return all(_same(cx, eng, x, y) for x, y in zip(a, b))
        if type(a) is Opaque or a is None or type(a) is str:
            return type(a) is type(b) and a == b
        return False
    if ka != kb:
        return False
    e = a == b
    return e if type(e) is bool else eng.valid(cx, zb(e))


def _candidates(cx, start, info, comps):
    """candidate invariants: (name, formula on entry, function of the components)"""
    out = []
    dead = info.dead
    T = z3.BoolVal(True)

    def add(name, f0, f1):
        if name not in dead:
            def f(c):
                try:
                    return f1(c)
                except OtherKind:
                    return T
            out.append((name, f0() if f0 is not None else T, f))

    def term(v):
        if _kindof(v) == "int":
            return _num(v)
        raise OtherKind()

    def real(v):
        if _kindof(v) == "real":
            return _num(v)
        raise OtherKind()

    def bo(v):
        if _kindof(v) == "bool":
            return zb(v)
        raise OtherKind()

    def sq(v):
        if type(v) is MList:
            return join_of(v)
        if v is None:
            return core.EMPTY
        if type(_kindof(v)) is tuple:
            return seq_of(v)
        raise OtherKind()

    def empty(v):
        return z3.BoolVal(True) if v is None else z3.Length(sq(v)) == 0

    def none(v):
        return z3.BoolVal(v is None)

    wid = [k for k, how in info.widened.items() if how == "value" and k in start]
    ints = [k for k in start if (k in wid or k[0] in "lgc") and _kindof(start[k]) == "int"]
    wints = [k for k in ints if k in wid]
    I = {k: term(start[k]) for k in ints} if wints else {}
    for k in wints:
        add(k + ">=init", None, lambda c, k=k: term(c[k]) >= I[k])
        add(k + "<=init", None, lambda c, k=k: term(c[k]) <= I[k])
        add(k + ">=0", lambda: I[k] >= 0, lambda c, k=k: term(c[k]) >= 0)
        for m in ints:
            if m == k:
                continue
            add(k + ">=" + m, lambda: I[k] >= I[m], lambda c, k=k, m=m: term(c[k]) >= term(c[m]))
            add(k + "<=" + m, lambda: I[k] <= I[m], lambda c, k=k, m=m: term(c[k]) <= term(c[m]))
            if m in wid and m < k:
                add(k + "+" + m, None, lambda c, k=k, m=m: term(c[k]) + term(c[m]) == I[k] + I[m])
                add(k + "-" + m, None, lambda c, k=k, m=m: term(c[k]) - term(c[m]) == I[k] - I[m])
    for k in wid:
        if _kindof(start[k]) == "real":
            add(k + ">=init", None, lambda c, k=k: real(c[k]) >= _num(start[k]))
    bools = [k for k in wid if _kindof(start[k]) == "bool"]
    B = {k: zb(start[k]) for k in bools}
    for k in bools:
        add(k + "==init", None, lambda c, k=k: bo(c[k]) == B[k])
        for m in bools:
            if m == k:
                continue
            add(k + "=>" + m, lambda: z3.Implies(B[k], B[m]), lambda c, k=k, m=m: z3.Implies(bo(c[k]), bo(c[m])))
            if m < k:
                add(k + "=>!" + m, lambda: z3.Not(z3.And(B[k], B[m])),
                    lambda c, k=k, m=m: z3.Not(z3.And(bo(c[k]), bo(c[m]))))
                add(k + " or " + m, lambda: z3.Or(B[k], B[m]), lambda c, k=k, m=m: z3.Or(bo(c[k]), bo(c[m])))
    S = {}
    C = {}  # sequences that do not change
    for k in start:
        if type(start[k]) is MList or type(_kindof(start[k])) is tuple or (
                start[k] is None and k in wid and any(type(x) is tuple for x in info.kinds.get(k, ()))):
            q = sq(start[k])
            if q is not None:
                (S if k in wid else C)[k] = q
    def noempty(l):
        n, q = z3.IntVal(0), join_of(l)
        for sg in l.segs:
            n = n + (1 if type(sg) is tuple else sg.count)
        return z3.Implies(n > 0, z3.Length(q) > 0)

    for k in S:
        if type(start[k]) is MList:
            add(k + " no empty item", lambda: noempty(start[k]), lambda c, k=k: noempty(c[k]))
        for m in S:
            if m == k:
                continue
            if m < k:
                add(k + "==" + m, lambda: S[k] == S[m], lambda c, k=k, m=m: sq(c[k]) == sq(c[m]))
            add(k + "++" + m, None, lambda c, k=k, m=m: z3.Concat(sq(c[k]), sq(c[m])) == z3.Concat(S[k], S[m]))
            add(k + "==init++" + m, lambda: S[m] == core.EMPTY,
                lambda c, k=k, m=m: sq(c[k]) == z3.Concat(S[k], sq(c[m])))
        for m in S:
            for j in S:
                if len({k, m, j}) == 3:
                    add(k + "++" + m + "++" + j, None, lambda c, k=k, m=m, j=j: z3.Concat(sq(c[k]), sq(c[m]), sq(c[j]))
                        == z3.Concat(S[k], S[m], S[j]))
                    add(k + "==init++" + m + "++" + j, lambda: z3.And(S[m] == core.EMPTY, S[j] == core.EMPTY),
                        lambda c, k=k, m=m, j=j: sq(c[k]) == z3.Concat(S[k], sq(c[m]), sq(c[j])))
                    add(k + "==" + m + "++" + j, lambda: S[k] == z3.Concat(S[m], S[j]),
                        lambda c, k=k, m=m, j=j: sq(c[k]) == z3.Concat(sq(c[m]), sq(c[j])))
        for m in wints:
            for j in C:
                add(k + "==" + j + "[" + m + ":]", lambda: S[k] == z3.SubSeq(C[j], I[m], z3.Length(C[j]) - I[m]),
                    lambda c, k=k, m=m, j=j: sq(c[k]) == z3.SubSeq(C[j], term(c[m]), z3.Length(C[j]) - term(c[m])))
                add(k + "==" + j + "[:" + m + "]", lambda: S[k] == z3.SubSeq(C[j], 0, I[m]),
                    lambda c, k=k, m=m, j=j: sq(c[k]) == z3.SubSeq(C[j], 0, term(c[m])))
            add("len" + k + "+" + m, None,
                lambda c, k=k, m=m: z3.Length(sq(c[k])) + term(c[m]) == z3.Length(S[k]) + I[m])
            add("len" + k + "-" + m, None,
                lambda c, k=k, m=m: z3.Length(sq(c[k])) - term(c[m]) == z3.Length(S[k]) - I[m])
    for k in S:
        if type(start[k]) is MList:
            continue
        tests = [("empty", empty)]
        if "none" in info.kinds.get(k, ()):
            tests += [("none", none), ("no data", lambda v: z3.And(z3.Not(none(v)), empty(v)))]
        for what, test in tests:
            for b in bools:
                add("%s %s => %s" % (k, what, b), lambda: z3.Implies(test(start[k]), B[b]),
                    lambda c, k=k, b=b, test=test: z3.Implies(test(c[k]), bo(c[b])))
                add("%s => %s %s" % (b, k, what), lambda: z3.Implies(B[b], test(start[k])),
                    lambda c, k=k, b=b, test=test: z3.Implies(bo(c[b]), test(c[k])))
        for m in S:
            if m != k and type(start[m]) is not MList:
                add("%s empty => %s empty" % (k, m), lambda: z3.Implies(empty(start[k]), empty(start[m])),
                    lambda c, k=k, m=m: z3.Implies(empty(c[k]), empty(c[m])))
    for k in wints:
        for j in C:
            add(k + "<=len" + j, lambda: I[k] <= z3.Length(C[j]), lambda c, k=k, j=j: term(c[k]) <= z3.Length(C[j]))
    if info.widened:
        for name, f in getattr(cx, "loop_candidates", []):
            add("spec:" + name, lambda: zb(f(start_ghost(start))), lambda c, f=f: zb(f(start_ghost(c))))
    return out


def start_ghost(c):
    return {k[2:]: v for k, v in c.items() if k.startswith("g:")}


class Ghost(dict):
    """ghost cells; mutations inside loops are journaled"""

    def __setitem__(self, k, v):
        cx = core.CX
        if cx is not None and cx.symbolic:
            cx.journal.append(("ghost", k, v))
            for f in cx.frames:
                f.writes.add(k)
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        cx = core.CX
        if cx is not None and cx.symbolic:
            for f in cx.frames:
                if k not in f.writes:
                    f.reads.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def peek(self, k, d=None):
        return dict.get(self, k, d)

    def setq(self, k, v):
        dict.__setitem__(self, k, v)
