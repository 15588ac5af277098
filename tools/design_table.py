"""Rewrites the table of contracts at the end of DESIGN.md from the contracts themselves (python3-vt tools/design_table.py)."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

MARK = "## Appendix: contracts and the functions they specify"


def table():
    out = [MARK, "", "(generated by `tools/design_table.py`; `B` = bounded, never counted as proved)", "",
           "| module | contract | properties | functions of /repo executed and specified |", "|---|---|---|---|"]
    for m in check.modules():
        for h in m.ALL:
            out.append("| %s | `%s`%s | %s | %s |" % (
                m.__name__.split(".")[1], h.__name__, " B" if h.bounded else "", " ".join(h.props),
                ", ".join("`%s`" % f for f in h.functions)))
    return "\n".join(out) + "\n"


BUGS = "| bug | property | needs |\n|---|---|---|\n"


def bugs():
    import glob
    import json

    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        out.append("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].rstrip(".")))
    return BUGS + "\n".join(out) + "\n"


p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
i = s.find(BUGS)
s = s[:i] + bugs() + "\n" + s[s.find(MARK):]
i = s.find(MARK)
s = (s[:i] if i >= 0 else s.rstrip() + "\n\n") + table()
open(p, "w").write(s)
