"""Path exploration, discharge of obligations, counter-models, replay, bounded search."""
import gc
import os
import random
import re
import sys
import time
import traceback

import z3

from . import core, lists, loader
from .core import (
    AssumeFailed, CheckFailed, ConcCx, Obligation, PathEnd, Restart, SymBool, SymBytes, SymCx, SymInt, SymReal, Unsupported,
    expand_quant, _has_quant,
)
from .lists import FlatMap, Ghost, MList


SOURCES = os.path.join(loader.REPO, "src") + os.sep


def internal_failure(cx, e):
    """name of the obligation broken by an assertion or a name of the real code that fails, or None for another exception"""
    if not isinstance(e, (AssertionError, NameError)):
        return None
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    co = tb.tb_frame.f_code
    if not co.co_filename.startswith(SOURCES):
        return None
    return "%s:no assertion nor name of the code fails (%s in %s)" % (
        ",".join(sorted(getattr(cx, "props", None) or ["C??"])), type(e).__name__, co.co_qualname.split(".<locals>")[-1].lstrip("."))


class Candidate(object):
    def __init__(self, name, values, exact, info):
        self.name, self.values, self.exact, self.info = name, values, exact, info


_SYMBOLS = re.compile(r"\b(SymInt|SymReal|SymBool|SymBytes|MList|SymIter|LazyLen|GenSpec)\b")


def _on_raise(code, offset, exc):
    """C code that refuses a symbolic value says nothing about real ones: such a path is given up, whoever catches the error"""
    c = core.CX
    if c is not None and c.symbolic and not c.finished and isinstance(exc, (TypeError, AttributeError, ValueError)):
        try:
            m = BaseException.__str__(exc)
        except BaseException:
            return
        if _SYMBOLS.search(m):
            c.note_dead("unsupported", "C code is given a symbolic value: " + m[:150])


def _watch():
    mon = getattr(sys, "monitoring", None)
    if mon is None or mon.get_tool(4) is not None:
        return
    mon.use_tool_id(4, "pyvc")
    mon.register_callback(4, mon.events.RAISE, _on_raise)
    mon.set_events(4, mon.events.RAISE)


_watch()


class Engine(object):
    def __init__(self, name, fork_timeout=1500, prove_timeout=8000, max_paths=20000, max_s=150.0, max_depth=400, fixed=None):
        self.name = name
        self.fixed = dict(fixed or {})  # choices made in advance: the exploration is split among processes
        self.fork_timeout = fork_timeout
        self.prove_timeout = prove_timeout
        self.max_paths, self.max_s, self.max_depth = max_paths, max_s, max_depth
        self.reset()
        self.while_info = {}
        self.loop_always = {}
        self.solver_s = 0.0
        self.solver_calls = 0
        self.restarts = 0
        self.deadline = float("inf")

    def reset(self):
        self.obls = {}
        self.candidates = []
        self.loop_table = {}
        self.unsupported = []
        self.crashes = []
        self.paths = 0
        self.cuts = 0
        self.covered = set()
        self.cover_names = set()
        self.dead_kinds = {}
        self.inexact = 0
        self.memo = {}

    # ---- solver services
    def in_time(self):
        if time.time() > self.deadline:
            core.unsupported("time limit reached")

    def valid(self, cx, f):
        """pc => f"""
        if z3.is_true(f):
            return True
        self.in_time()
        t0 = time.time()
        try:
            if not _has_quant(f):
                # cheap attempt on the quantifier-free part
                if core.solve(cx.solver, z3.Not(f)) == z3.unsat:
                    return True
                if not cx.pc_q:
                    r = z3.unknown
            s = z3.Solver()
            s.set("timeout", self.prove_timeout)
            s.add(*cx.pc)
            s.add(z3.Not(f))
            return core.solve(s) == z3.unsat
        finally:
            self.solver_s += time.time() - t0
            self.solver_calls += 1

    def model_of(self, cx, extra, K=3, timeout=6000):
        """A finite model (lists of at most K elements) of the path condition and extra, preferring small numbers."""
        t0 = time.time()
        try:
            fs = list(cx.pc) + list(extra)
            ns = []
            for inp in cx.inputs:
                if inp[1] == "list":
                    ns.append(inp[2]["n"])
            qf = [expand_quant(f, K) if _has_quant(f) else f for f in fs]
            base = z3.Solver()
            base.set("timeout", timeout)
            base.add(*qf)
            for n in ns:
                base.add(n <= K)
            small = []
            for nm, kind, v in cx.inputs:
                if kind == "int":
                    small.append(z3.And(v.z >= -40, v.z <= 40))
                elif kind == "bytes":
                    small.append(z3.Length(v.z) <= 24)
                elif kind == "real":
                    small.append(z3.And(v.z >= 0, v.z <= 16))
            for soft in (small, []):
                base.push()
                base.add(*soft)
                r = core.solve(base)
                if r == z3.sat:
                    return base.model()
                base.pop()
            return None
        finally:
            self.solver_s += time.time() - t0
            self.solver_calls += 1

    def prove(self, cx, name, f, info):
        ob = self.obls.get(name)
        if ob is None:
            ob = self.obls[name] = Obligation(name)
        ob.count += 1
        if ob.status == "refuted" and ob.tries > 6 or ob.status == "unknown" and ob.tries > 2:
            return  # lost already
        t0 = time.time()
        if z3.is_true(f) or (not z3.is_false(f) and self.valid(cx, f)):
            ob.solver_s += time.time() - t0
            return
        if z3.is_false(f):
            s = z3.Solver()
            s.set("timeout", self.prove_timeout)
            s.add(*cx.pc)
            r = core.solve(s)
            if r == z3.unsat:
                ob.solver_s += time.time() - t0
                return
        ob.tries += 1
        neg = z3.Not(f)
        m = self.model_of(cx, [neg])
        ob.solver_s += time.time() - t0
        if m is not None:
            if ob.status == "discharged" or ob.status == "unknown":
                ob.status = "refuted"
                ob.detail = {"info": {k: str(v) for k, v in info.items()}, "exact": cx.exact}
            if not cx.exact:
                ob.detail["exact"] = ob.detail.get("exact") and False
            if len([c for c in self.candidates if c.name == name]) < 4:
                self.candidates.append(Candidate(name, self.values(cx, m), cx.exact, info))
        else:
            if ob.status == "discharged":
                ob.status = "unknown"
                ob.detail = {"info": {k: str(v) for k, v in info.items()}}

    def values(self, cx, m):
        out = {}
        for nm, kind, v in cx.inputs:
            try:
                if kind == "list":
                    n = m.eval(v["n"], model_completion=True).as_long()
                    n = max(0, min(n, 5))
                    out[nm] = [tuple(_pyval(m.eval(f(z3.IntVal(i)), model_completion=True)) for f in v["fields"])
                               for i in range(n)]
                elif kind in ("int", "choice"):
                    out[nm] = _pyval(m.eval(v.z, model_completion=True))
                elif kind == "bool":
                    out[nm] = bool(z3.is_true(m.eval(v.z, model_completion=True)))
                elif kind == "real":
                    out[nm] = _pyval(m.eval(v.z, model_completion=True))
                elif kind == "bytes":
                    out[nm] = _seqval(m, v.z)
            except Exception:
                pass
        return out

    # ---- exploration
    def explore(self, harness):
        gc.collect()
        gc.disable()  # finalizers of a path must not run during another one
        gc.freeze()
        try:
            return self._explore_all(harness)
        finally:
            gc.unfreeze()
            gc.enable()

    def _explore_all(self, harness):
        t0 = time.time()
        self.deadline = t0 + self.max_s
        for attempt in range(60):
            self.reset()
            try:
                self._explore(harness, t0)
                break
            except Restart:
                self.restarts += 1
                continue
        else:
            self.unsupported.append("loop annotations did not stabilise")
        self.wall = time.time() - t0
        return self

    def _explore(self, harness, t0):
        stack = []  # current decision list
        first = True
        decisions = []
        while True:
            cx = SymCx(self, decisions)
            cx.ghost = Ghost()
            cx.lists = {}
            core.set_cx(cx)
            try:
                harness(cx)
                if cx.dead is None:
                    cx.note_dead("done")
            except PathEnd:
                pass
            except Unsupported as e:
                cx.note_dead("unsupported", str(e))
            except Restart:
                pass
            except RecursionError as e:
                cx.dead = ("unsupported", "recursion")
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                if cx.dead is None:
                    if cx.feasible_full():
                        cx.dead = ("crash", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                        self.internal(cx, e)
                    else:
                        cx.dead = ("infeasible", "")
            finally:
                cx.finished = True
                core.set_cx(None)
            del cx.journal[:]
            if getattr(cx, "collect", False) or self.paths % 300 == 299:
                gc.collect()
            if cx.restart:
                raise Restart()
            self.paths += 1
            if not cx.exact:
                self.inexact += 1
            kind, msg = cx.dead
            self.dead_kinds[kind] = self.dead_kinds.get(kind, 0) + 1
            if kind == "unsupported":
                if cx.feasible_full():
                    if msg not in self.unsupported:
                        self.unsupported.append(msg)
                    if len(self.unsupported) > 8:
                        return
            elif kind == "crash":
                self.crashes.append(msg)
                if len(self.crashes) > 3:
                    return
            # next path
            decisions = cx.decisions
            while decisions:
                c, n = decisions[-1][:2]
                if n == "forced" or c + 1 >= n:
                    decisions.pop()
                else:
                    decisions[-1] = [c + 1, n] + decisions[-1][2:]
                    break
            if not decisions:
                return
            if self.paths > self.max_paths or time.time() - t0 > self.max_s:
                self.unsupported.append("exploration limit reached (%d paths, %.0f s)" % (self.paths, time.time() - t0))
                return

    def internal(self, cx, e):
        name = internal_failure(cx, e)
        if name is None:
            return
        ob = self.obls.setdefault(name, Obligation(name))
        ob.count += 1
        m = self.model_of(cx, [])
        if m is None:
            return
        ob.status, ob.detail = "refuted", {"info": {}, "exact": cx.exact}
        self.candidates.append(Candidate(name, self.values(cx, m), False, {}))

    def summary(self):
        return {
            "contract": self.name,
            "paths": self.paths,
            "obligations": len(self.obls),
            "obligation_instances": sum(o.count for o in self.obls.values()),
            "discharged": sum(1 for o in self.obls.values() if o.status == "discharged"),
            "refuted": [o.name for o in self.obls.values() if o.status == "refuted"],
            "unknown": [o.name for o in self.obls.values() if o.status == "unknown"],
            "unsupported": self.unsupported[:8],
            "crashes": [c[:400] for c in self.crashes[:2]],
            "loops_with_widening": sum(1 for w in self.while_info.values() if w.widened),
            "solver_s": round(self.solver_s, 3),
            "solver_calls": self.solver_calls,
            "wall_s": round(getattr(self, "wall", 0.0), 3),
        }

    def proved(self):
        return (not self.unsupported and not self.crashes and self.obls
                and all(o.status == "discharged" for o in self.obls.values()))


def _pyval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(10).as_fraction())
    raise ValueError(v)


def _seqval(m, z):
    n = m.eval(z3.Length(z), model_completion=True).as_long()
    n = min(n, 200000)
    out = bytearray()
    for i in range(n):
        if i < 4096:
            out.append(_pyval(m.eval(z[i], model_completion=True)) % 256)
        else:
            out.append(97)
    return bytes(out)


_runs = 0


def run_concrete(harness, values=None, seed=0):
    """one concrete run of a harness; returns (status, detail, cx)"""
    r = _run_concrete(harness, values, seed)
    if getattr(r[2], "collect", False):
        gc.collect()  # what the run leaves must not be finalized during another one
    return r


def _run_concrete(harness, values=None, seed=0):
    global _runs
    _runs += 1
    gc.disable()  # finalizers of a run must not run during another one
    if _runs % 100 == 0:
        gc.collect()
    cx = ConcCx(values, seed)
    cx.ghost = {}
    cx.lists = {}
    core.set_cx(cx)
    try:
        try:
            harness(cx)
        except BaseException:
            if cx.dead:
                raise AssumeFailed()
            raise
        if cx.dead:
            raise AssumeFailed()
        if cx.failures:  # the code has swallowed the exception
            raise CheckFailed(cx.failures[0][0])
        return "ok", None, cx
    except AssumeFailed:
        return "skip", None, cx
    except CheckFailed as e:
        return "fail", str(e), cx
    except (Unsupported, PathEnd) as e:
        return "unsupported", str(e), cx
    except RecursionError:
        return "fail", "unbounded recursion", cx
    except Exception as e:
        name = internal_failure(cx, e)
        if name is not None:
            return "fail", name, cx
        return "crash", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:]), cx
    finally:
        cx.finished = True
        core.set_cx(None)
