#!/usr/bin/env python3-vt
"""
Decides one property: discharges every obligation of the contracts it rests on, from the current source of the code
under test, replays counter-models on the real code, and cross-checks the contracts by bounded random runs.

  check.py --prop C05 [--tier quick|thorough] [--seed N]
  check.py --replay FILE
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(4000)
sys.dont_write_bytecode = True

from pyvc import core, engine, loader  # noqa: E402

MODULES = ["registry", "locking", "rawio", "opening", "layers", "utils", "windows", "stack"]
RUNS = {"quick": 300, "thorough": 6000}
SEARCH = {"quick": 3000, "thorough": 20000}
TASK_SECONDS = {"quick": 240.0, "thorough": 1500.0}
PROOF_SECONDS = {"quick": 420.0, "thorough": 7200.0}  # for all the proofs of a property
GIVE_UP = {"quick": 540.0, "thorough": 9000.0}
MORE_SECONDS = {"quick": 45.0, "thorough": 600.0}  # of bounded runs, where a proof is not obtained

TRUSTED = [
    "CPython, the z3 solver (one solver decides every obligation), and the verifier /verif/pyvc itself",
    "the instrumentation of the source (every statement is kept; operators, loops, builtins and attribute stores are "
    "routed through helpers of the same meaning)",
    "the stubs of os, fcntl, time, threading, multiprocessing, warnings (and of the Win32 modules): the assumed contracts "
    "of the operating system and of the standard library",
    "partial correctness: termination is not proved; integers and times are mathematical integers and reals",
    "a thread holding the registry mutex is not preempted by another one that uses the table (meaning of a mutex)",
]


def modules():
    out = []
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "contracts", m + ".py")):
            out.append(importlib.import_module("contracts." + m))
    return out


def contracts_of(prop):
    return [h for m in modules() for h in m.ALL if prop in h.props]


def find(name):
    for m in modules():
        for h in m.ALL:
            if h.__name__ == name:
                return h
    raise SystemExit("no contract named " + name)


_worlds = {}


def world(h, instr):
    from contracts import kernel

    key = (h.stubs, instr)
    if key not in _worlds:
        _worlds[key] = kernel.make_world(instr, h.stubs() if h.stubs else None)
    return _worlds[key]


def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else ():
        line = line.strip()
        if line.startswith("known: "):
            d = json.loads(line[7:])
            known.append(d)
    return known


def concrete(h, prop, values=None, seed=0):
    def run(cx):
        cx.props = {prop}
        h(cx, world(h, False))

    return engine.run_concrete(run, values, seed)


# --------------------------------------------------------------------------------------------------------------
# tasks, run in separate processes


def task_prove(name, prop, fixed, tier, seed, until):
    h = find(name)
    for k in load_known():
        core.KNOWN.add(k["obligation"])
    out = {"contract": name, "fixed": fixed, "kind": "proof", "violations": [], "undecided": []}
    try:
        W = world(h, True)
        cls = getattr(engine, "Engine")
        e = cls(name, max_s=max(1.0, min(h.seconds * (1 if tier == "quick" else 5), TASK_SECONDS[tier], until - time.time())),
                fixed=fixed)

        def run(cx):
            cx.props = {prop}
            h(cx, W)

        e.explore(run)
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        out["undecided"].append("the contract can't be applied: %s: %s" % (type(ex).__name__, str(ex)[:300]))
        out["crash"] = traceback.format_exc()[-1500:]
        return out
    out.update(e.summary())
    out["names"] = {o.name: o.status for o in e.obls.values()}
    out["exact"] = e.inexact == 0
    out["covers"] = sorted(e.covered)
    out["uncovered"] = sorted(e.cover_names - e.covered)
    out["undecided"] += ["beyond the verifier: " + u for u in e.unsupported[:5]]
    out["undecided"] += ["the contract does not apply: " + c.strip()[-300:] for c in e.crashes[:2]]
    # counter-models: replay on the real code
    done = set()
    for c in e.candidates:
        if c.name in done:
            continue
        st, detail, ccx = concrete(h, prop, c.values, seed)
        hits = ccx.known_hits if ccx is not None else []
        if st == "fail":
            done.add(c.name)
            out["violations"].append({"obligation": detail, "refuted": c.name, "values": jsonable(c.values),
                                      "seed": seed, "replayed": True})
        elif c.name in hits:
            done.add(c.name)
            out.setdefault("known", []).append({"obligation": c.name, "values": jsonable(c.values)})
    for n, status in out["names"].items():
        if status == "unknown":
            out["undecided"].append("no answer from the solver: " + n)
        if status != "refuted" or n in done:
            continue
        cands = [c for c in e.candidates if c.name == n]
        hit = None
        for i in range(SEARCH[tier]):
            c = cands[i % len(cands)] if cands and i < 200 * len(cands) else None
            st, detail, ccx = concrete(h, prop, c.values if c else None, seed * 7919 + i)
            if st == "fail":
                hit = {"obligation": detail, "refuted": n, "values": jsonable(ccx.used), "seed": seed * 7919 + i,
                       "replayed": True}
                break
        if hit:
            out["violations"].append(hit)
        elif n in core.KNOWN:
            out.setdefault("known", []).append({"obligation": n, "values": None})
        else:
            # a model whose values the real code goes through without failing is one of the verifier's making (an unfaithful
            # path); the others are reported, though no failing input is found
            passes = any(concrete(h, prop, c.values, seed)[0] == "ok" for c in cands)
            if all(c.exact for c in cands) and cands and not passes:
                out["violations"].append({"obligation": n, "refuted": n, "values": jsonable(cands[0].values), "seed": seed,
                                          "replayed": False, "detail": e.obls[n].detail})
            else:
                out["undecided"].append("not proved, and no failing input found: " + n)
    return out


def task_runs(name, prop, n, seed, seconds):
    """bounded: random concrete runs of the real code against the same contract"""
    h = find(name)
    for k in load_known():
        core.KNOWN.add(k["obligation"])
    out = {"contract": name, "kind": "runs", "runs": 0, "checked": 0, "violations": [], "undecided": [], "covers": set(),
           "sample": None, "known": []}
    t0 = time.time()
    for i in range(n):
        if time.time() - t0 > seconds:
            break
        s = seed * 1000003 + i
        st, detail, ccx = concrete(h, prop, None, s)
        out["runs"] += 1
        if ccx is not None:
            out["checked"] += ccx.checks
            out["covers"] |= ccx.covered
            if out["sample"] is None and st == "ok" and ccx.checks:
                out["sample"] = jsonable(ccx.used)
        if st == "fail":
            out["violations"].append({"obligation": detail, "values": jsonable(ccx.used), "seed": s, "replayed": True})
            break
        if st in ("crash", "unsupported"):
            out["undecided"].append("%s: %s" % (st, str(detail)[-600:]))
            if len(out["undecided"]) > 3:
                break
    out["covers"] = sorted(out["covers"])
    out["wall_s"] = time.time() - t0
    return out


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return {"bytes": v.hex()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return repr(v)


def unjson(v):
    if isinstance(v, dict):
        if set(v) == {"bytes"}:
            return bytes.fromhex(v["bytes"])
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [tuple(unjson(y) for y in x) if isinstance(x, list) else unjson(x) for x in v]
    return v


def call(args):
    fn, a = args
    try:
        return globals()[fn](*a)
    except BaseException as ex:
        return {"contract": a[0], "kind": "error", "violations": [],
                "undecided": ["the verifier failed: %s: %s" % (type(ex).__name__, str(ex)[:300])],
                "crash": traceback.format_exc()[-1500:]}


def perform(jobs, until):
    ex = cf.ProcessPoolExecutor(max_workers=8, mp_context=multiprocessing.get_context("fork"))
    results = []
    futs = [(j, ex.submit(call, j)) for j in jobs]
    late = False
    for j, f in futs:
        try:
            results.append(f.result(timeout=max(0.1, until - time.time())))
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            late = late or isinstance(e, cf.TimeoutError)
            results.append({"contract": j[1][0], "kind": "error", "violations": [],
                            "undecided": ["the process of the verifier ended: %s" % type(e).__name__]})
    if late:
        for p in list(ex._processes.values()):
            p.kill()
    ex.shutdown(wait=not late, cancel_futures=True)
    return results


def splits(h):
    out = [{}]
    for name, n in h.split.items():
        out = [dict(d, **{name: i}) for d in out for i in range(n)]
    return out


# --------------------------------------------------------------------------------------------------------------


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    if o.replay:
        return replay(o.replay)
    t0 = time.time()
    prop, tier = o.prop, "thorough" if o.tier == "thorough" else "quick"
    hs = contracts_of(prop)
    jobs, proofs = [], []
    for h in hs:
        if not h.bounded:
            for fixed in splits(h):
                proofs.append(("task_prove", (h.__name__, prop, fixed, tier, o.seed, t0 + PROOF_SECONDS[tier])))
    for h in hs:
        parts = 4 if h.bounded else (1 if tier == "quick" else 4)
        n = int(RUNS[tier] * h.runs) // parts
        for k in range(parts):
            jobs.append(("task_runs", (h.__name__, prop, max(n, 20), o.seed * 16 + k, 20.0 if tier == "quick" else 240.0)))
    results = perform(jobs + proofs, t0 + GIVE_UP[tier])
    hope = {r["contract"] for r in results if r["kind"] != "runs" and r["undecided"]}
    if hope and not any(r["violations"] for r in results):
        # not proved: more bounded runs
        n = -(-8 // len(hope))
        results += perform([("task_runs", (c, prop, 10**9, o.seed * 16 + 1000 + k, MORE_SECONDS[tier] * min(1.0, 8.0 / len(hope) / n)))
                            for c in sorted(hope) for k in range(n)], t0 + GIVE_UP[tier] + 2 * MORE_SECONDS[tier])
    # ---- evidence
    edir = os.path.join(HERE, "evidence")
    rdir = os.path.join(edir, "replays")
    os.makedirs(rdir, exist_ok=True)
    per = {}
    obls, discharged, refuted, undecided = set(), set(), set(), []
    notproved = set()
    inst = paths = solver_calls = 0
    solver_s = 0.0
    runs = checked = 0
    samples = []
    known = {}
    violations = []
    for r in results:
        h = find(r["contract"])
        for v in r["violations"]:
            v = dict(v, contract=r["contract"], property=prop, functions=h.functions)
            violations.append(v)
        for u in r["undecided"]:
            undecided.append("%s: %s" % (r["contract"], u))
        for k in r.get("known", []):
            known.setdefault(k["obligation"], k)
        if r["kind"] == "proof":
            d = per.setdefault(r["contract"], {"functions": h.functions, "obligations": 0, "discharged": 0, "instances": 0,
                                               "paths": 0, "solver_s": 0.0, "loops_with_inferred_invariants": 0, "complete": True})
            for n, st in r.get("names", {}).items():
                key = (r["contract"], n)
                obls.add(key)
                if st != "discharged":
                    notproved.add(key)
            d["instances"] += r.get("obligation_instances", 0)
            d["paths"] += r.get("paths", 0)
            d["solver_s"] = round(d["solver_s"] + r.get("solver_s", 0.0), 3)
            d["loops_with_inferred_invariants"] = max(d["loops_with_inferred_invariants"], r.get("loops_with_widening", 0))
            if r["undecided"] or "names" not in r:
                d["complete"] = False
            inst += r.get("obligation_instances", 0)
            paths += r.get("paths", 0)
            solver_s += r.get("solver_s", 0.0)
            solver_calls += r.get("solver_calls", 0)
        elif r["kind"] == "runs":
            runs += r["runs"]
            checked += r["checked"]
            if r["sample"] is not None and len(samples) < 4:
                samples.append({"contract": r["contract"], "input": r["sample"]})
    # an obligation counts as discharged only if every part of its contract was fully explored
    incomplete = {c for c, d in per.items() if not d["complete"]}
    disch = {k for k in obls if k not in notproved and k[0] not in incomplete}
    for c, d in per.items():
        d["obligations"] = sum(1 for k in obls if k[0] == c)
        d["discharged"] = sum(1 for k in disch if k[0] == c)
    known_defs = {k["obligation"]: k for k in load_known() if k["property"] == prop}
    for n in list(known):
        if n not in known_defs:
            violations.append({"obligation": n, "values": known[n]["values"], "replayed": True, "contract": "?",
                               "property": prop, "functions": []})
            del known[n]
    if not obls and not any(h.bounded for h in hs):
        undecided.append("no obligation was generated")
    seen, vlines = set(), []
    for v in violations:
        key = (v["contract"], v["obligation"])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(vlines) + 1))
        v["how"] = "python3-vt /verif/check.py --replay " + path
        with open(path, "w") as f:
            json.dump(jsonable(v), f, indent=1)
        vlines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v["replayed"] else " no-failing-input-found"))
    fallback = sorted(incomplete | {k[0] for k in notproved if k[1] not in known})
    ev = {
        "property": prop, "tier": tier, "seed": o.seed,
        "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": len(disch),
            "obligation_instances": inst, "paths": paths,
            "checker_cmd": "python3-vt /verif/check.py --prop %s" % prop,
            "back_end": "z3 " + ".".join(str(x) for x in __import__("z3").get_version()),
            "solver_s": round(solver_s, 2), "solver_calls": solver_calls,
            "contracts": per,
            "functions_under_contract": sorted({f for d in per.values() for f in d["functions"]}),
            "decided_by_bounded_runs_only": sorted(set(fallback)),
            "bounded_checks": sorted(h.__name__ for h in hs if h.bounded),
            "bounded_runs": runs, "bounded_run_checks": checked, "samples": samples,
            "known_findings": sorted(known),
            "undecided": undecided[:20],
            "trusted_base": TRUSTED + [a for h in hs for a in getattr(h, "assumes", [])],
        },
        "assumptions": TRUSTED + [a for h in hs for a in getattr(h, "assumes", [])],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(vlines),
    }
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("property %s: %d contracts, %d/%d obligations discharged (%d instances, %d paths, %.1f s of solver), %d bounded runs, "
          "%.1f s" % (prop, len(per), c["discharged"], c["obligations"], inst, paths, solver_s, runs, ev["wall_s"]))
    if o.v:
        for c in sorted(per):
            print("  ", c, {k: v for k, v in per[c].items() if k != "functions"})
    for u in undecided[:10]:
        print("undecided:", u[:400])
    for n in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known_defs[n]["what"]))
    for v, line in zip([v for v in violations], vlines):
        pass
    for line in vlines:
        print(line)
    for v in violations[:10]:
        print("  failed obligation: %s [%s]" % (v["obligation"], v["contract"]))
    return 1 if vlines else 0


def replay(path):
    v = json.load(open(path))
    print("obligation:", v["obligation"])
    print("contract:  ", v["contract"], v.get("functions"))
    if not v.get("replayed"):
        print("no failing input was found; verifier's counter-model:", json.dumps(v.get("values")))
        print("detail:", json.dumps(v.get("detail")))
        return 1
    h = find(v["contract"])
    for k in load_known():
        core.KNOWN.add(k["obligation"])
    st, detail, ccx = concrete(h, v["property"], unjson(v["values"]), v.get("seed", 0))
    print("on the real code:", st, detail)
    print("inputs:", json.dumps(jsonable(ccx.used)) if ccx else None)
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
