#!/usr/bin/env -S python3-vt
"""check.py PROP [--tier quick|thorough] [--only CASE] [-v] | --replay FILE"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main() -> int:
    from symx import runner

    a = sys.argv[1:]
    if a and a[0] == "--replay-stdin":
        runner.replay_main()
        return 0
    if a and a[0] == "--replay":
        import json

        runner.setup_path()
        it = json.load(open(a[1]))["item"]
        for r in runner.replay_items([it]):
            for l, d in r["failures"]:
                print("FAILED", l)
                print(d)
            return 1 if r["failures"] else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    only = ""
    verbose = False
    prop = a.pop(0)
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        elif x == "-v":
            verbose = True
    return runner.run_check(prop, tier, only, verbose)


if __name__ == "__main__":
    sys.exit(main())
