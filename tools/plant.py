#!/usr/bin/env python3
"""plant.py FILE [ID...]: writes /verif/seeded/ID from the descriptions of FILE, after having verified each of them.
FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import json
import os
import subprocess
import sys

V = "/verif"
R = "/repo"


def sh(cmd, cwd=R, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    notest = "--notest" in sys.argv
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    resp = V + "/tools/seeded_results.json"
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        assert sh("git status --short")[1] == "", "repo not clean"
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = f"{R}/src/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git diff")[1])
            open(d + "/demo.py", "w").write('import sys\n\nsys.dont_write_bytecode = True\nsys.path.insert(0, "src")\nimport litgen  # noqa\n\n' + s["demo"].strip() + "\n")
            open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/common.sh >/dev/null 2>&1\nexport PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1\nexec python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            rd, od = sh(f"bash {d}/demo.sh")
            print(s["id"], "demo with patch:", rd, "" if rd else "NOT FAILING")
            if rd == 0:
                continue
            if "Error" in od and "AssertionError" not in od:
                print(od[-600:])
            if not notest:
                rb, ob = sh("bash /opt/vp/build.sh")
                rt, ot = sh("bash /opt/vp/test.sh /tmp/plant.json")
                t = json.load(open("/tmp/plant.json"))
                passed = set(t.get("passed", t.get("stable", [])))
                lost = base - passed
                print(s["id"], "build", rb, "lost tests:", len(lost), sorted(lost)[:3])
                if lost or rb:
                    continue
            rc, oc = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {s['prop']} --tier quick", cwd=V)
            caught = rc == 1 and f"VIOLATION property={s['prop']} " in oc
            print(s["id"], "check:", rc, "CAUGHT" if caught else "MISSED", "" if caught else oc[-500:])
            res = json.load(open(resp)) if os.path.exists(resp) else {}
            res[s["id"]] = s["prop"] if caught else "missed"
            json.dump(res, open(resp, "w"), indent=1, sort_keys=True)
        finally:
            sh("git checkout -- .")
        rd, od = sh(f"bash {d}/demo.sh")
        if rd:
            print(s["id"], "DEMO FAILS ON THE UNCHANGED TREE", od[-800:])
    sh("bash /opt/vp/build.sh")


main()
