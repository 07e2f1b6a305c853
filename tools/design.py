#!/usr/bin/env python3-vt
"""fills the tables of DESIGN.md from tools/design.in.md, props.py, registry and seeds"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
from props import PROPS, NA, VG     # noqa
from seeds import SEEDS         # noqa
from details import DETAILS, CAUGHT     # noqa
from bfstatic.registry import CHECKS    # noqa


def main():
    t = ""
    for p in PROPS:
        if p["id"] not in CHECKS:
            continue
        d = DETAILS.get(p["id"], {})
        t += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
        t += "* *Decided by*: %s (`checks/%s.py`).\n" % (CHECKS[p["id"]][2], CHECKS[p["id"]][0])
        for k in ("oracle", "bounds", "cost"):
            if k in d:
                t += "* *%s*: %s\n" % (k.capitalize(), d[k])
        t += "* *Notes*: %s\n* *Why tests cannot*: %s\n" % (p["note"].replace(VG, "").strip() or "-", p["why"])
        s = [q["id"] for q in SEEDS if q["property"] == p["id"]]
        t += "* *Planted*: %s\n\n" % (", ".join(s) or "mutants only")
    na = ""
    for p in PROPS:
        if p["id"] not in CHECKS:
            na += "* **%s %s**: %s\n" % (p["id"], p["title"], p.get("na") or NA[p["id"]])
    s = "| id | property | needs | caught |\n|---|---|---|---|\n"
    for q in SEEDS:
        s += "| %s | %s | %s | %s |\n" % (q["id"], q["property"], q["needs"], CAUGHT.get(q["id"], "by %s" % q["property"]))
    d = open(os.path.join(HERE, "design.in.md")).read()
    d = d.replace("@@TABLE@@", t.rstrip()).replace("@@NA@@", na.rstrip()).replace("@@SEEDS@@", s.rstrip())
    open(os.path.join(VERIF, "DESIGN.md"), "w").write(d)


main()
