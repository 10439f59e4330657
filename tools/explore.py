#!/usr/bin/env python3
"""Development aid only (no check uses it): runs a harness natively with random inputs, to find out quickly whether the
oracle and the code agree before the solver decides.    python3-vt tools/explore.py C10 [case] [n]"""
import importlib, os, random, sys, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from symx import runner
from symx.harness import ReplayH, Skip, SkipConfig

runner.setup_path()
import logging

logging.disable(logging.CRITICAL)


class RandomH(ReplayH):
    def __init__(self, rnd):
        super().__init__({})
        self.rnd = rnd
        self.log = {}

    def str(self, name, n, alphabet):
        a = alphabet if isinstance(alphabet, str) else "abcdefgh"
        r = "".join(self.rnd.choice(a) for _ in range(n))
        self.log[name] = r
        return r

    text = str

    def choose(self, name, options):
        i = self.rnd.randrange(len(options))
        self.log[name] = i
        return options[i]

    def bool(self, name):
        return self.choose(name, [False, True])

    lazybool = bool

    def int(self, name, lo, hi):
        r = self.rnd.randint(lo, hi)
        self.log[name] = r
        return r


def main():
    prop, only, n = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "", int(sys.argv[3]) if len(sys.argv) > 3 else 300
    mod = importlib.import_module("props." + prop.lower())
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    seen = {}
    total = 0
    for case in mod.CASES:
        if only and case.name != only:
            continue
        for _ in range(n):
            cfg = rnd.choice(case.thorough)
            h = RandomH(rnd)
            try:
                case.fn(h, **cfg)
            except (Skip, SkipConfig):
                continue
            except BaseException as e:
                h.failures.append((type(e).__name__ + " " + str(e)[:100], traceback.format_exc()[-1500:]))
            finally:
                h.cleanup()
            total += 1
            for label, detail in h.failures:
                k = (case.name, label)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= int(os.environ.get("SHOW", "1")):
                    print("=" * 100, "\n", case.name, label, cfg, h.log, "\n", str(detail).replace("\\n", "\n")[: int(os.environ.get("LEN", "1500"))])
    print(total, "runs;", seen)


main()
