#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from the table in props.py and bfstatic/registry.py"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
from props import PROPS, NA          # noqa
from bfstatic.registry import CHECKS  # noqa

S = "BayesicFitting/source/"


def prop(p):
    return {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["forall"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": [S + f for f in p["files"]],
                    "mechanism": [{"name": n, "where": S + w} for n, w in p["mech"]]},
    }


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(prop(p)) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt -c \"import numpy, ast\"", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["id"] in CHECKS:
            man["checks"].append({
                "property": p["id"],
                "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
                "technique": "static analysis: " + CHECKS[p["id"]][2],
                "level": "other",
                "level_note": p["note"],
            })
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p.get("na") or NA[p["id"]]})
    assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
