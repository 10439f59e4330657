#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/propdata.py"""
import json
import os

from propdata import NOT_APPLICABLE, PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = ("Every path of the real code over the unknowns is explored and each assertion is decided by z3 for all the values of the path "
         "(bounds per case in the evidence); sampled models of the paths are replayed on the uninstrumented code. "
         "Trusted: the symbolic string/regex/int models of /verif/symx, z3, and srcML (run natively, with opaque identifier characters).")


def main() -> None:
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }
            f.write(json.dumps(d) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        if not os.path.exists(os.path.join(V, "props", p["id"].lower() + ".py")):
            print("no module for", p["id"])
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
            "technique": "symbolic execution of the real Python code, assertions decided by z3",
            "level": "model_checking",
            "level_note": LEVEL,
        })
    m = {
        "version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: the checks instrument the source code of /repo at import time (symx/rewrite.py), on every run.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks")


main()
