"""Writes MANIFEST.json: one check per property that has contracts."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NOT_APPLICABLE:
        na.append({"property": p, "reason": NOT_APPLICABLE[p]})
        continue
    hs = check.contracts_of(p)
    if not hs:
        na.append({"property": p, "reason": "not yet under contract"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py --prop %s --tier quick" % p,
        "thorough_cmd": "python3-vt check.py --prop %s --tier thorough" % p,
        "technique": "contract-based deductive verification of the real Python source (path-wise VC generation, z3)",
        "level": "proof",
        "level_note": NOTES.get(p, "") + COMMON,
    })
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na,
           "notes": "Contracts in contracts/, verifier in pyvc/, runner check.py; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
