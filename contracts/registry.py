"""
Contracts of the process-wide lock table (rsfile_registries.IntraProcessLockRegistryClass).

State: for each file, the sequence of locks held (handle, shared, start, end or None), the pending descriptors, the
number of waiting threads, and a condition.  Invariant I: 0 <= start < end, and two different locks of one file never
conflict.  Every public method is verified from an arbitrary state satisfying I, for arbitrary arguments satisfying its
precondition, including the state after a fork (C21) and any number of waits (the table is then arbitrary again: other
threads ran).
"""
import z3

from pyvc.contract import contract
from pyvc import core, lists, stubs
from pyvc.core import And_, Eq_, If_, Iff_, Implies_, Not_, Or_, unsupported
from pyvc.lists import MList, Opaque, freeze, l_empty, l_exists, l_forall, l_pairwise, same_value

U, V, OTHER = Opaque("file-u"), Opaque("file-v"), Opaque("file-w")


# ---- specification


def overlap(a, b):
    """two non-empty ranges share a byte"""
    c1 = True if a[3] is None else b[2] < a[3]
    c2 = True if b[3] is None else a[2] < b[3]
    return And_(c1, c2)


def conflict(a, b):
    return And_(overlap(a, b), Not_(And_(a[1], b[1], a[0] != b[0])))


def compatible(a, b):
    return Not_(conflict(a, b))


def wellformed(r):
    return And_(r[2] >= 0, True if r[3] is None else r[3] > r[2])


def invariant(locks):
    return And_(l_forall(locks, wellformed), l_pairwise(locks, compatible))


def range_end(start, length):
    """None or 0 stand for infinity"""
    if length is None:
        return None
    if length == 0:
        return None
    return start + length


# ---- representation of the table, found by observing what a registration stores


class Rep(object):
    """positions of the fields in the entries of the table"""

    def __init__(self, W):
        saved = core.CX
        cx = core.ConcCx()
        cx.env = stubs.DefaultEnv(cx)
        core.set_cx(cx)
        try:
            cls = W["rsfile_registries"].IntraProcessLockRegistryClass
            reg = cls()
            u = Opaque("probe")
            reg.register_file_lock(u, 7, 5, 3, False, False, None)
            reg.add_unique_id_data(u, 4242)
            attrs = [k for k, v in vars(reg).items() if isinstance(v, dict) and u in v]
            if len(attrs) != 1:
                raise core.Unsupported("table not found in the registry")
            self.attr = attrs[0]
            e = vars(reg)[self.attr][u]
            self.mutex_attr = [k for k, v in vars(reg).items() if isinstance(v, stubs.StubRLock)]
            if type(e) is not list or len(e) != 4 or len(self.mutex_attr) != 1:
                raise core.Unsupported("table entries have another structure")
            self.mutex_attr = self.mutex_attr[0]
            pos = {}
            for i, x in enumerate(e):
                if isinstance(x, stubs.StubCondition):
                    pos["cond"] = i
                elif type(x) is list and x and isinstance(x[0], tuple):
                    if x != [(7, False, 3, 8)] or type(x[0]) is not tuple:
                        raise core.Unsupported("lock records have another structure")
                    pos["locks"] = i
                elif type(x) is list and x == [4242]:
                    pos["data"] = i
                elif type(x) is int and x == 0:
                    pos["waiters"] = i
            if len(pos) != 4:
                raise core.Unsupported("table entries have another structure")
            self.pos = pos
        finally:
            core.set_cx(saved)

    def table(self, reg):
        return vars(reg)[self.attr]

    def entry(self, reg, uid):
        t = self.table(reg)
        e = dict.get(t, uid)
        if e is None:
            return None
        if len(e) != 4:
            unsupported("table entries have another structure")
        return {k: e[i] for k, i in self.pos.items()}

    def set(self, reg, uid, field, v):
        e = dict.get(self.table(reg), uid)
        if type(e) is MList:
            e.segs[self.pos[field]] = ("v", v)
        else:
            e[self.pos[field]] = v

    def mutex(self, reg):
        return vars(reg)[self.mutex_attr]


def rep_of(W):
    r = getattr(W, "lock_table_rep", None)
    if r is None:
        r = W.lock_table_rep = Rep(W)
    return r


class GuardDict(dict):
    """the table: records accesses made without holding the mutex; can't be enumerated in proofs (so that an operation
    can only know about the files it names)"""

    guard = None
    off = True

    def _g(self):
        if self.off:
            return
        cx = core.CX
        if cx is None or cx.finished:
            return
        cx.check("C01,C02,C03,C04:lock table accessed only under the mutex", lambda: self.guard.depth > 0)

    def __getitem__(self, k):
        self._g()
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        self._g()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._g()
        dict.__delitem__(self, k)

    def __contains__(self, k):
        self._g()
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        self._g()
        return dict.get(self, k, d)

    def pop(self, *a):
        self._g()
        return dict.pop(self, *a)

    def setdefault(self, k, d=None):
        self._g()
        return dict.setdefault(self, k, d)

    def _no(self, *a):
        cx = core.CX
        if cx is not None and cx.symbolic and not self.off:
            unsupported("enumeration of the lock table")

    def __iter__(self):
        self._no()
        return dict.__iter__(self)

    def keys(self):
        self._no()
        return dict.keys(self)

    def values(self):
        self._no()
        return dict.values(self)

    def items(self):
        self._no()
        return dict.items(self)

    def __len__(self):
        if dict.__contains__(self, V):
            self._no()
        return dict.__len__(self)

    def clear(self):
        self._g()
        dict.clear(self)

    def __bool__(self):
        self._g()
        return dict.__len__(self) > 0  # the file v stands for all the others


# ---- environment and pre-state


class State(object):
    """snapshot of what the table says about one file"""

    def __init__(self, rep, reg, uid):
        e = rep.entry(reg, uid)
        self.present = e is not None
        if e is None:
            self.locks, self.data, self.waiters, self.cond = [], [], 0, None
            self.raw = None
        else:
            self.locks, self.data = freeze(e["locks"]), freeze(e["data"])
            self.waiters, self.cond = e["waiters"], e["cond"]


class RegEnv(stubs.DefaultEnv):
    def __init__(self, cx, pid):
        stubs.DefaultEnv.__init__(self, cx)
        self.pid = pid
        self.notifications = []
        self.waits = 0
        self.on_wait = None

    def getpid(self):
        return self.pid

    def cond_wait(self, cond, timeout):
        if not self.cx.symbolic:
            self.waits += 1
        if self.on_wait is None:
            self.cx.fail("*:unexpected wait", "a non waiting operation waits")
            return False
        return self.on_wait(cond, timeout)

    def cond_notify(self, cond, n):
        self.notifications.append((cond, n))


class Setup(object):
    pass


class Interruption(BaseException):
    """an asynchronous exception (KeyboardInterrupt ...)"""


SITUATIONS = ["plain", "forked", "mutex held", "plain, no other file", "forked, no other file"]


def build(cx, W, rep):
    """An arbitrary registry satisfying the invariant."""
    s = Setup()
    env = cx.env = RegEnv(cx, 1000)
    s.env = env
    cls = W["rsfile_registries"].IntraProcessLockRegistryClass
    s.reg = reg = cls()
    s.rep = rep
    s.mutex = rep.mutex(reg)
    situation = cx.choice("situation", SITUATIONS)
    s.forked = "forked" in situation
    others = "no other file" not in situation
    present = cx.choice("entry", [True, False], 0.85)
    table = rep.table(reg)
    if dict.__len__(table):
        unsupported("registry not empty at first")
    guard = GuardDict()
    guard.guard = s.mutex
    setattr(reg, rep.attr, guard)
    if cx.symbolic:
        mutex = s.mutex

        def entry(name):
            e = [None] * 4
            e[rep.pos["cond"]] = stubs.StubCondition(mutex)
            e[rep.pos["locks"]] = cx.locks(name + ".locks")
            e[rep.pos["data"]] = cx.ints(name + ".data")
            e[rep.pos["waiters"]] = cx.int(name + ".waiters", lo=0)
            m = MList(e, name="entry")
            cx.owned = tuple(cx.owned) + (m.uid, e[rep.pos["locks"]].uid, e[rep.pos["data"]].uid)
            cx.assume_z(cx.memo("inv:" + name, lambda: core.zb(invariant(e[rep.pos["locks"]]))))
            return m

        if present:
            dict.__setitem__(guard, U, entry("u"))
        if others:
            dict.__setitem__(guard, V, entry("v"))
    else:
        for uid, nm in ((U, "u"), (V, "v")):
            if not (present if uid is U else others):
                continue
            for (h, sh, st, e) in cx.locks(nm + ".locks"):
                if st < 0 or h < 0:
                    cx.give_up()
                try:
                    ok = reg.register_file_lock(uid, h, None if e is None else e - st, st, False, sh, None)
                except RuntimeError:
                    ok = False
            reg.add_unique_id_data(uid, 1)
            ds = cx.ints(nm + ".data")
            w = cx.int(nm + ".waiters", lo=0, hi=3) if not (nm + ".waiters") in cx.values else max(
                0, cx.int(nm + ".waiters"))
            rep.set(reg, uid, "data", list(ds))
            rep.set(reg, uid, "waiters", w)
        env.notifications[:] = []
    s.pre, s.pre_v = State(rep, reg, U), State(rep, reg, V)
    s.cond_u = s.pre.cond
    if not cx.symbolic:
        cx.assume(And_(invariant(s.pre.locks), invariant(s.pre_v.locks)))
    if situation == "mutex held":
        s.mutex.depth = 1
    s.depth = s.mutex.depth
    guard.off = False
    s.guard = guard
    if s.forked:
        env.pid = 2000
    # what the operation must see
    s.T = s.pre
    if s.forked:
        s.T = State.__new__(State)
        s.T.present, s.T.locks, s.T.data, s.T.waiters, s.T.cond = False, [], [], 0, None
    return s


def child_keeps(reg):
    """a lock taken next is still held afterwards"""
    reg.register_file_lock(OTHER, 1, 5, 3, False, False, None)
    return reg.unique_id_has_locks(OTHER) and reg.unregister_file_lock(OTHER, 1, 5, 3)


def finish(cx, s, pid="C01,C02,C03,C04,C21"):
    """frame conditions common to all operations"""
    s.guard.off = True
    cx.check("C01,C02,C03,C04:mutex left as it was found", lambda: s.mutex.depth == s.depth)
    now_v = State(s.rep, s.reg, V)
    if s.forked:
        cx.check("C21:after a fork the locks of every file are forgotten", lambda: Or_(not now_v.present, l_empty(now_v.locks)))
        if not s.pre_v.present:
            cx.check("C21:what the child does first is not undone by what it does next", lambda: child_keeps(s.reg))
    elif not s.pre_v.present:
        cx.check("C03,C21:no entry appears for another file", not now_v.present)
    else:
        cx.check("C01,C03,C21:other files keep their entry", lambda: now_v.present)
        if now_v.present:
            check_same_locks(cx, "C01,C03,C21:locks of other files unchanged", s.pre_v.locks, now_v.locks)
            cx.check("C07,C21:pending descriptors of other files unchanged", lambda: same_list(s.pre_v.data, now_v.data))
            cx.check("C04:waiters of other files unchanged", lambda: now_v.waiters == s.pre_v.waiters)


def same_list(a, b):
    return And_(l_forall(a, lambda x: l_exists(b, lambda y: same_value(x, y))),
                l_forall(b, lambda x: l_exists(a, lambda y: same_value(x, y))),
                Eq_(_len(a), _len(b)) if not core.CX.symbolic else True)


def _len(l):
    return len(l)


def check_same_locks(cx, name, a, b):
    cx.check(name, lambda: same_set(a, b))


def same_set(a, b):
    return And_(l_forall(a, lambda x: l_exists(b, lambda y: same_value(x, y))),
                l_forall(b, lambda x: l_exists(a, lambda y: same_value(x, y))))


def set_is(b, a, plus=None, minus=None):
    """set(b) == set(a) + plus, without the elements satisfying minus"""
    keep = (lambda x: Not_(minus(x))) if minus else (lambda x: True)
    f1 = l_forall(a, lambda x: Implies_(keep(x), l_exists(b, lambda y: same_value(x, y))))
    f2 = l_forall(b, lambda y: Or_(l_exists(a, lambda x: And_(same_value(x, y), keep(x))),
                                   same_value(y, plus) if plus is not None else False))
    f3 = l_exists(b, lambda y: same_value(y, plus)) if plus is not None else True
    return And_(f1, f2, f3)


def check_unchanged(cx, s, tag, data_too=True):
    now = State(s.rep, s.reg, U)
    cx.check(tag + ":locks unchanged", lambda: same_set(s.T.locks, now.locks))
    if data_too:
        cx.check("C07:pending descriptors unchanged", lambda: same_list(s.T.data, now.data))
    cx.check("C04:entry with locks, descriptors or waiters kept", lambda:
             Or_(now.present, And_(l_empty(s.T.locks), l_empty(s.T.data), s.T.waiters == 0)))
    if now.present:
        cx.check("C04:waiter count unchanged", lambda: now.waiters == s.T.waiters)
        if s.T.present:
            cx.check("C04:waiters keep their condition", lambda: now.cond is s.T.cond)
    return now


def check_woken(cx, s, released):
    """every waiter of the file is notified, on the condition it waits on"""
    n = None
    for cond, k in s.env.notifications:
        if cond is s.T.cond:
            n = "all" if k == "all" or n == "all" else (k if n is None else n + k)
    if n == "all":
        return
    cx.check("C04:every waiting thread is woken when a lock is released", lambda:
             Implies_(And_(released, s.T.waiters > 0), False if n is None else n >= s.T.waiters))


# ---- contracts


@contract("C01 C02 C04 C07 C08 C21", "rsfile_registries.IntraProcessLockRegistryClass.register_file_lock",
          split={"situation": 5, "entry": 2, "blocking": 2})
def register_file_lock(cx, W):
    rep = rep_of(W)
    s = build(cx, W, rep)
    h = cx.int("handle", lo=0)
    length = cx.optint("length", lo=0)
    off = cx.int("offset", lo=0)
    blocking = cx.choice("blocking", [True, False])
    shared = cx.bool("shared")
    timeout = None if cx.flag("timeout?none") else cx.real("timeout", lo=0)
    end = range_end(off, length)
    new = (h, shared, off, end)
    held = s.depth

    def on_wait(cond, tmo):
        """contract of Condition.wait: other threads run, keeping the invariant and the entry of a file with waiters"""
        now = State(rep, s.reg, U)
        cx.check("C02,C08:a request that should not wait never waits", lambda: blocking)
        cx.check("C02:waits only for a conflicting lock of another handle", lambda:
                 l_exists(s.T.locks, lambda r: And_(r[0] != h, conflict(r, new))))
        cx.check("C08:the wait is bounded by the time-out given", lambda:
                 True if timeout is None else (tmo is not None and tmo <= timeout))
        cx.check("C02:locks unchanged while waiting", lambda: same_set(s.T.locks, now.locks))
        cx.check("C04:a waiting thread is counted in the entry of its file", lambda:
                 And_(now.present, now.waiters == s.T.waiters + 1) if now.present else False)
        cx.check("C04:waits on the condition of the file", lambda: cond is now.cond)
        s.guard.off = True
        if cx.symbolic:
            e = dict.get(s.guard, U)
            nl = cx.locks("w.locks")
            nd = cx.ints("w.data")
            nw = cx.int("w.waiters", lo=1)
            cx.assume_z(cx.memo("inv:w", lambda: core.zb(invariant(nl))))
            cx.owned = tuple(cx.owned) + (nl.uid, nd.uid)
            rep.set(s.reg, U, "locks", nl)
            rep.set(s.reg, U, "data", nd)
            rep.set(s.reg, U, "waiters", nw)
        else:
            others(cx, s, h)
        s.T = State(rep, s.reg, U)
        s.T.waiters = s.T.waiters - 1
        s.fresh = True
        s.guard.off = False
        how = cx.choice("wait ends by", ["notification", "time-out", "exception"])
        if how == "exception":
            raise Interruption()
        return how == "notification"

    def at_head(cx):
        if s.fresh is None:
            now = State(rep, s.reg, U)

    def at_back(cx):
        # the loop is left in the state the environment produced: any number of iterations is covered by one
        now = State(rep, s.reg, U)
        cx.check("C02:locks unchanged by an unsuccessful attempt", lambda: same_set(s.T.locks, now.locks))
        cx.check("C04:waiter count restored after waiting", lambda: now.waiters == s.T.waiters if now.present else False)
        cx.check("C07:pending descriptors unchanged", lambda: same_list(s.T.data, now.data))

    s.fresh = None
    s.env.on_wait = on_wait
    cx.head_hook, cx.back_hook = at_head, at_back
    res, exc = None, None
    try:
        res = s.reg.register_file_lock(U, h, length, off, blocking, shared, timeout)
    except (RuntimeError, Interruption) as e:
        exc = e
    s.guard.off = True
    T = s.T
    now = State(rep, s.reg, U)
    own = l_exists(T.locks, lambda r: And_(r[0] == h, overlap(r, new)))
    other = l_exists(T.locks, lambda r: And_(r[0] != h, conflict(r, new)))
    if isinstance(exc, Interruption):
        cx.cover("register: interrupted")
        cx.check("C02:locks unchanged by a request that is not granted", lambda: same_set(T.locks, now.locks))
        cx.check("C07:pending descriptors unchanged", lambda: same_list(T.data, now.data))
    elif exc is not None:
        cx.cover("register: refused as double lock")
        cx.check("C02:RuntimeError only for a range the handle already holds", lambda: own)
        cx.check("C02:locks unchanged by a request that is not granted", lambda: same_set(T.locks, now.locks))
        cx.check("C07:pending descriptors unchanged", lambda: same_list(T.data, now.data))
    elif res:
        cx.cover("register: granted")
        cx.check("C01,C02:granted only if nothing conflicts", lambda: And_(Not_(own), Not_(other)))
        cx.check("C01,C02:exactly the lock requested is recorded", lambda: set_is(now.locks, T.locks, plus=new))
        cx.check("C01:locks of a file never conflict", lambda: invariant(now.locks))
        cx.check("C07:pending descriptors unchanged", lambda: same_list(T.data, now.data))
        if s.forked:
            s.env.pid = 2000
            cx.check("C21:the table of the child is then kept", lambda: s.reg.unique_id_has_locks(U) and True)
    else:
        cx.cover("register: refused")
        cx.check("C02:a waiting request is never refused", lambda: not blocking)
        cx.check("C02:refused only for a conflicting lock of another handle", lambda: other)
        cx.check("C02:locks unchanged by a request that is not granted", lambda: same_set(T.locks, now.locks))
        cx.check("C07:pending descriptors unchanged", lambda: same_list(T.data, now.data))
    cx.check("C02:result is a boolean", lambda: exc is not None or isinstance(res, (bool, core.SymBool)))
    if now.present:
        cx.check("C04:waiter count restored", lambda: now.waiters == T.waiters)
        if T.present:
            cx.check("C04:the condition of the file is kept", lambda: now.cond is T.cond)
        else:
            cx.check("C04:the condition of a new entry uses the mutex", lambda: now.cond.lock is s.mutex)
    else:
        cx.check("C04:entry with locks, descriptors or waiters kept", lambda:
                 And_(l_empty(T.locks), l_empty(T.data), T.waiters == 0))
    cx.check("C21:a fresh child can lock anything", lambda: Implies_(s.forked, bool(res) and exc is None))
    finish(cx, s)


def others(cx, s, h):
    """(concrete runs) what other threads do during a wait"""
    reg = s.reg
    pid = s.env.pid
    saved, s.env.on_wait = s.env.on_wait, None
    d, s.mutex.depth = s.mutex.depth, 0
    n = s.env.waits
    try:
        locks = list(State(s.rep, reg, U).locks)
        act = cx.rng.random()
        if n >= 3 or act < 0.5:
            for r in locks:
                if r[0] != h and (n >= 3 or cx.rng.random() < 0.6):
                    reg.unregister_file_lock(U, r[0], None if r[3] is None else r[3] - r[2], r[2])
        elif act < 0.7 and locks:
            r = cx.rng.choice(locks)
            if r[0] != h:
                reg.remove_file_locks(U, r[0])
        elif act < 0.9:
            try:
                reg.register_file_lock(U, cx.rng.choice([101, 102]), cx.rng.randint(1, 6), cx.rng.randint(0, 14), False,
                                       cx.rng.random() < 0.7, None)
            except RuntimeError:
                pass
        reg.try_deleting_unique_id_entry(U)
        if n > 12:
            cx.fail("C02:a waiting request is granted once nothing conflicts")
    finally:
        s.mutex.depth = d
        s.env.on_wait = saved


@contract("C01 C02 C03 C04 C07 C21", "rsfile_registries.IntraProcessLockRegistryClass.unregister_file_lock")
def unregister_file_lock(cx, W):
    rep = rep_of(W)
    s = build(cx, W, rep)
    h = cx.int("handle", lo=0)
    length = cx.optint("length", lo=0)
    off = cx.int("offset", lo=0)
    if not cx.symbolic and s.pre.locks and cx.rng.random() < 0.7 and "handle" not in cx.values:
        r = cx.rng.choice(s.pre.locks)
        h, off = (r[0] if cx.rng.random() < 0.8 else h), (r[2] if cx.rng.random() < 0.8 else off)
        if cx.rng.random() < 0.8:
            length = None if r[3] is None else max(0, r[3] - off)
    end = range_end(off, length)
    T = s.T
    res, exc = None, None
    match = lambda r: And_(r[0] == h, r[2] == off, Eq_(r[3], end))
    try:
        res = s.reg.unregister_file_lock(U, h, length, off)
    except RuntimeError as e:
        exc = e
    s.guard.off = True
    now = State(rep, s.reg, U)
    found = l_exists(T.locks, match)
    if exc is not None:
        cx.cover("unregister: no such lock")
        cx.check("C03:RuntimeError only if the handle has no lock with exactly this range", lambda: Not_(found))
        check_unchanged(cx, s, "C03")
    else:
        cx.check("C03,C21:unlocking a range that is not held raises (unless the file has no entry)", lambda:
                 Or_(found, Not_(T.present)))
        cx.check("C03:the lock, and only it, is removed", lambda: set_is(now.locks, T.locks, minus=match))
        cx.check("C01:locks of a file never conflict", lambda: invariant(now.locks))
        cx.check("C07:result tells whether locks are left", lambda: Iff_(res, l_empty(now.locks)))
        cx.check("C07:pending descriptors unchanged", lambda: same_list(T.data, now.data))
        cx.check("C04:the entry of a file with waiters is kept", lambda: Implies_(T.waiters > 0, now.present))
        cx.check("C04:entry with locks or descriptors kept", lambda:
                 Or_(now.present, And_(l_empty(now.locks), l_empty(T.data))))
        if now.present:
            cx.check("C04:waiter count unchanged", lambda: now.waiters == T.waiters)
            cx.check("C04:waiters keep their condition", lambda: now.cond is T.cond)
        if T.present:
            cx.cover("unregister: released")
            check_woken(cx, s, True)
    finish(cx, s)


@contract("C01 C03 C04 C06 C07 C21", "rsfile_registries.IntraProcessLockRegistryClass.remove_file_locks")
def remove_file_locks(cx, W):
    rep = rep_of(W)
    s = build(cx, W, rep)
    h = cx.int("handle", lo=0)
    T = s.T
    res = s.reg.remove_file_locks(U, h)
    s.guard.off = True
    now = State(rep, s.reg, U)
    mine = lambda r: r[0] == h
    cx.cover("remove_file_locks")
    cx.check("C03,C06:every lock of the handle, and no other, is returned", lambda:
             And_(l_forall(res, lambda r: And_(mine(r), l_exists(T.locks, lambda x: same_value(x, r)))),
                  l_forall(T.locks, lambda r: Implies_(mine(r), l_exists(res, lambda x: same_value(x, r))))))
    cx.check("C03,C06:the locks of the handle, and no other, are removed", lambda: set_is(now.locks, T.locks, minus=mine))
    cx.check("C01:locks of a file never conflict", lambda: invariant(now.locks))
    cx.check("C06:no lock is returned twice", lambda: l_pairwise(res, lambda a, b: Not_(same_value(a, b))))
    cx.check("C07:pending descriptors unchanged", lambda: same_list(T.data, now.data))
    cx.check("C04:entry with locks, descriptors or waiters kept", lambda:
             Or_(now.present, And_(l_empty(now.locks), l_empty(T.data), T.waiters == 0)))
    if now.present:
        cx.check("C04:waiter count unchanged", lambda: now.waiters == T.waiters)
        cx.check("C04:waiters keep their condition", lambda: now.cond is T.cond)
    if T.present:
        check_woken(cx, s, l_exists(T.locks, mine))
    finish(cx, s)


@contract("C01 C04 C21", "rsfile_registries.IntraProcessLockRegistryClass.try_deleting_unique_id_entry")
def try_deleting_unique_id_entry(cx, W):
    rep = rep_of(W)
    s = build(cx, W, rep)
    T = s.T
    if not cx.symbolic and s.pre.present:
        for f, e in (("locks", []), ("data", []), ("waiters", 0)):
            if cx.rng.random() < 0.4 and not cx.values:
                rep.set(s.reg, U, f, e)
        s.pre = State(rep, s.reg, U)
        if not s.forked:
            s.T = T = s.pre
    res = s.reg.try_deleting_unique_id_entry(U)
    s.guard.off = True
    now = State(rep, s.reg, U)
    nothing = And_(l_empty(T.locks), l_empty(T.data), T.waiters == 0)
    cx.check("C04,C21:deletes exactly the entries with nothing left", lambda: Iff_(res, And_(T.present, nothing)))
    cx.check("C04:entry dropped when nothing is left", lambda: Implies_(nothing, not now.present))
    if res:
        cx.cover("try_deleting: deleted")
    elif T.present:
        cx.cover("try_deleting: kept")
    check_unchanged(cx, s, "C04,C03")
    finish(cx, s)


@contract("C01 C04 C07 C21", "rsfile_registries.IntraProcessLockRegistryClass.add_unique_id_data")
def add_unique_id_data(cx, W):
    rep = rep_of(W)
    s = build(cx, W, rep)
    T = s.T
    fd = cx.int("fd", lo=0)
    s.reg.add_unique_id_data(U, fd)
    s.guard.off = True
    now = State(rep, s.reg, U)
    cx.cover("add data")
    if True:
        cx.check("C07:descriptor recorded, others kept", lambda: set_is(now.data, T.data, plus=fd))
        cx.check("C03,C04:locks unchanged", lambda: same_set(T.locks, now.locks))
        cx.check("C04:entry exists", lambda: now.present)
        if now.present:
            cx.check("C04:waiter count unchanged", lambda: now.waiters == T.waiters)
            cx.check("C04:the condition of the file is kept", lambda:
                     now.cond is T.cond if T.present else now.cond.lock is s.mutex)
    finish(cx, s)


@contract("C01 C04 C07 C21", "rsfile_registries.IntraProcessLockRegistryClass.remove_unique_id_data")
def remove_unique_id_data(cx, W):
    rep = rep_of(W)
    s = build(cx, W, rep)
    T = s.T
    res = s.reg.remove_unique_id_data(U)
    s.guard.off = True
    now = State(rep, s.reg, U)
    cx.cover("remove data")
    cx.check("C07,C06:returns every pending descriptor", lambda: same_list(T.data, res))
    cx.check("C07:each of them is forgotten", lambda: l_empty(now.data))
    cx.check("C03,C04:locks unchanged", lambda: same_set(T.locks, now.locks))
    cx.check("C04:entry with locks or waiters kept", lambda: Or_(now.present, And_(l_empty(T.locks), T.waiters == 0)))
    if now.present:
        cx.check("C04:waiter count unchanged", lambda: now.waiters == T.waiters)
        cx.check("C04:waiters keep their condition", lambda: now.cond is T.cond if T.present else True)
    finish(cx, s)


@contract("C01 C04 C06 C07 C21", "rsfile_registries.IntraProcessLockRegistryClass.unique_id_has_locks")
def unique_id_has_locks(cx, W):
    rep = rep_of(W)
    s = build(cx, W, rep)
    T = s.T
    res = s.reg.unique_id_has_locks(U)
    s.guard.off = True
    cx.cover("has_locks")
    cx.check("C06,C07,C21:tells whether locks are held on the file", lambda: Iff_(res, Not_(l_empty(T.locks))))
    check_unchanged(cx, s, "C03,C04")
    finish(cx, s)


ALL = [register_file_lock, unregister_file_lock, remove_file_locks, try_deleting_unique_id_entry, add_unique_id_data,
       remove_unique_id_data, unique_id_has_locks]
