"""Explores every path of the harnesses of a property on a pool of processes, replays what the solver finds."""
from __future__ import annotations

import copy
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
import types
from multiprocessing.connection import wait
from typing import Any

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
REPO_SRC = os.path.join(REPO, "src")
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup_path() -> None:
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.setrecursionlimit(12000)
    import logging

    logging.disable(logging.CRITICAL)


# --------------------------------------------------------------------------------------------------------
#   module state: every path starts from the state right after import
# --------------------------------------------------------------------------------------------------------
_BASIC = (str, int, float, bool, type(None))


class StateSnapshot:
    def __init__(self, modules: dict) -> None:
        self.containers: list = []  # (container, saved copy)
        self.attrs: list = []  # (namespace owner, dict of basic values, set of names)
        seen: set = set()
        for m in modules.values():
            self._namespace(m, vars(m), seen, top=True)

    def _container(self, c: Any, seen: set) -> None:
        if id(c) in seen:
            return
        seen.add(id(c))
        try:
            saved = copy.deepcopy(c)
        except Exception:
            return
        nested = any(not isinstance(x, _BASIC) for x in (list(c.values()) if isinstance(c, dict) else list(c)))
        self.containers.append((c, saved, nested))

    def _namespace(self, owner: Any, ns: Any, seen: set, top: bool = False) -> None:
        if id(owner) in seen:
            return
        seen.add(id(owner))
        basics = {}
        for k, v in list(ns.items()):
            if k.startswith("__"):
                continue
            if isinstance(v, _BASIC):
                basics[k] = v
            elif type(v) in (list, dict, set):
                basics[k] = v
                self._container(v, seen)
            elif isinstance(v, type) and getattr(v, "__module__", None) == (owner.__name__ if top else getattr(owner, "__module__", "")):
                import enum

                if not issubclass(v, enum.Enum):
                    self._namespace(v, vars(v), seen)
            elif isinstance(v, types.FunctionType):
                self._namespace(v, v.__dict__, seen)
                for d in v.__defaults__ or ():
                    if type(d) in (list, dict, set):
                        self._container(d, seen)
            elif hasattr(v, "__dict__") and not isinstance(v, (types.ModuleType, type)):
                mod = (type(v).__module__ or "").partition(".")[0]
                if mod in ("codemanip", "srcmlcpp", "litgen", "srcmlcpp_tools"):
                    self._namespace(v, v.__dict__, seen)
        self.attrs.append((owner, basics, set(ns)))

    def restore(self) -> None:
        for c, saved, nested in self.containers:
            fresh = copy.deepcopy(saved) if nested else saved
            if isinstance(c, list):
                c[:] = fresh
            else:
                c.clear()
                c.update(fresh)
        for owner, basics, names in self.attrs:
            ns = vars(owner)
            for k, v in basics.items():
                if ns.get(k, self) is not v:
                    setattr(owner, k, v)
            if len(ns) != len(names):
                for k in [k for k in ns if k not in names]:
                    try:
                        delattr(owner, k)
                    except AttributeError:
                        pass


# raised by a harness: it could not make sense of the output of the code under test
PARSE_ERRORS = (IndexError, ValueError, KeyError, AssertionError)


def is_parse_error(e: Exception) -> bool:
    if isinstance(e, AttributeError):
        # (an output of another kind than expected; a function that is not there any more says nothing about the outputs)
        import types

        return not isinstance(e.obj, (types.ModuleType, type)) and not (type(e.obj).__module__ or "").startswith(("litgen", "srcmlcpp", "codemanip"))
    if isinstance(e, TypeError):
        return "argument" not in str(e)
    return isinstance(e, PARSE_ERRORS)


# --------------------------------------------------------------------------------------------------------
#   worker
# --------------------------------------------------------------------------------------------------------
def _run_path(engine, case, params, prefix, snap, want_model, deadline, want_tries=0):
    from .core import BudgetExceeded, PathDone, PathInfeasible, Unsupported
    from .harness import SkipConfig, SymH, plain, raised_by_harness

    snap.restore()
    engine.reset_path(prefix)
    engine.deadline = deadline
    engine.active = True
    h = SymH()
    out: dict[str, Any] = {"status": "ok"}
    try:
        case.fn(h, **params)
    except PathInfeasible:
        out["status"] = "infeasible"
    except PathDone:
        pass
    except SkipConfig as e:
        out["status"] = "skip"
        out["msg"] = str(e)
    except Unsupported as e:
        out["status"] = "unsupported"
        out["msg"] = f"{e}\n{traceback.format_exc(limit=-6)}"
        try:
            out["try"] = engine.some_inputs(want_tries, random.Random(len(prefix)))
        except Unsupported:
            pass
    except BudgetExceeded:
        out["status"] = "budget"
    except Exception as e:  # the code under test (or the harness) raised
        try:
            label = f"exception:{type(e).__name__}"
            if raised_by_harness(e) and not is_parse_error(e):
                raise Unsupported("the harness itself failed: " + "".join(traceback.format_exception(e)[-4:]))
            model = engine.sat_model(True)
            if model is None:
                out["status"] = "infeasible"
            else:
                tb = "".join(traceback.format_exception(e)[-8:])
                engine.failures.append((label, engine.model_inputs(model), tb))
        except Unsupported as e2:
            out["status"] = "unsupported"
            out["msg"] = str(e2)
    finally:
        engine.active = False
    out["pending"] = engine.pending
    fails = []
    for l, m, d in engine.failures:
        try:
            fails.append((l, m, repr(d)[:3000]))
        except BaseException:
            fails.append((l, m, ""))
    out["failures"] = fails
    out["reached"] = engine.reached
    if out["status"] == "ok" and want_model and not engine.failures:
        try:
            model = engine.sat_model(True)
            if model is not None:
                vals = engine.full_model(model)
                out["model"] = engine.model_inputs_from(vals)
                table = engine.char_table(vals)
                out["obs"] = [plain(v, table) for v in h.observations]
        except Unsupported:
            pass
    return out


def _worker(conn, cases, tier, seed, slice_s, keep):
    from . import rt
    from .core import Engine, set_engine
    from .rewrite import LOADED

    for c in keep:
        c.close()
    e = Engine()
    set_engine(e)
    snap = StateSnapshot({k: m for k, m in LOADED.items()})
    rnd = random.Random(seed)
    n_unsupported = 0
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            conn.send({"functions": sorted(rt.FUNCTIONS)})
            return
        ci, pi, prefixes, sample_p, deadline = task
        case = cases[ci]
        params = getattr(case, tier)[pi]
        t0 = time.time()
        stack = list(prefixes)
        e.stats.__init__()
        res: dict[str, Any] = {"case": ci, "params": pi, "failures": [], "unsupported": [], "n_unsupported": 0, "tries": [], "models": [], "reached": set(), "budget": False}
        n = 0
        while stack and (n == 0 or time.time() - t0 < slice_s):
            p = stack.pop()
            out = _run_path(e, case, params, p, snap, rnd.random() < sample_p, deadline, 6 if n_unsupported < 200 else 0)
            n += 1
            if out["status"] == "infeasible":
                e.stats.infeasible += 1
            elif out["status"] == "unsupported":
                if len(res["unsupported"]) < 20:
                    res["unsupported"].append(out["msg"])
                n_unsupported += 1
                res["n_unsupported"] += 1
                res["tries"].extend(out.get("try", []))
            elif out["status"] == "skip":
                res["skipped"] = out["msg"]
            elif out["status"] == "budget":
                res["budget"] = True
                stack.append(p)
                break
            else:
                e.stats.paths += 1
            stack.extend(out["pending"])
            res["failures"].extend(out["failures"])
            res["reached"] |= out["reached"]
            if "model" in out:
                res["models"].append((out["model"], out["obs"]))
            if res["failures"] or len(res["tries"]) > 100:
                break
        res["pending"] = stack
        res["stats"] = e.stats.as_dict()
        res["time"] = time.time() - t0
        conn.send(res)


# --------------------------------------------------------------------------------------------------------
#   replay (separate process, uninstrumented code)
# --------------------------------------------------------------------------------------------------------
def replay_batch(items: list, tmo: float = 300) -> list:
    """items: [{prop, case, tier, params_index, inputs}] -> [{failures, exception, observations, skipped}]"""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, "check.py"), "--replay-stdin"],
        input=json.dumps(items), capture_output=True, text=True, timeout=tmo, env=env,
    )
    marker = "\n@@REPLAY@@"
    if marker not in p.stdout:
        raise RuntimeError("replay process failed:\n" + p.stdout[-2000:] + p.stderr[-3000:])
    return json.loads(p.stdout.split(marker, 1)[1])


def replay_main() -> None:
    setup_path()
    items = json.loads(sys.stdin.read())
    out = replay_items(items)
    sys.stdout.write("\n@@REPLAY@@" + json.dumps(out))


def replay_items(items: list) -> list:
    from .harness import ReplayH, Skip, SkipConfig, raised_by_harness

    out = []
    for it in items:
        mod = importlib.import_module("props." + it["prop"].lower())
        case = [c for c in mod.CASES if c.name == it["case"]][0]
        params = it["params"] if "params" in it else getattr(case, it["tier"])[it["params_index"]]
        h = ReplayH(it["inputs"], it.get("partial", False))
        r: dict[str, Any] = {"skipped": False}
        try:
            case.fn(h, **params)
        except (Skip, SkipConfig):
            r["skipped"] = True
        except Exception as e:
            if raised_by_harness(e) and not is_parse_error(e):
                r["harness_error"] = "".join(traceback.format_exception(e)[-4:])
            h.failures.append((f"exception:{type(e).__name__}", "".join(traceback.format_exception(e)[-8:])[-3000:]))
        finally:
            h.cleanup()
        r["failures"] = h.failures
        r["observations"] = h.observations
        r["proved"] = h.proved
        out.append(r)
    return out


# --------------------------------------------------------------------------------------------------------
#   master
# --------------------------------------------------------------------------------------------------------
def load_known(prop: str) -> list:
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") != "fixed"]


def is_known(known: list, case: str, label: str, inputs: dict):
    for k in known:
        if k["case"] != case or k["label"] != label:
            continue
        if all(inputs.get(n) == v for n, v in k.get("inputs", {}).items()):
            return k
    return None


def run_check(prop: str, tier: str, only: str = "", verbose: bool = False) -> int:
    t_start = time.time()
    setup_path()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    from . import rewrite

    rewrite.install()
    from . import srcml

    srcml.install()
    budget = float(os.environ.get("SYMX_BUDGET", "780" if tier == "quick" else "840"))
    deadline = t_start + budget
    mod = importlib.import_module("props." + prop.lower())
    cases = [c for c in mod.CASES if not only or only in c.name]
    import gc

    gc.collect()
    gc.freeze()
    nw = int(os.environ.get("SYMX_WORKERS", "8"))
    ctx = mp.get_context("fork")
    conns, procs = [], []
    for _ in range(nw):
        a, b = ctx.Pipe()
        pr = ctx.Process(target=_worker, args=(b, cases, tier, seed, 0.4, list(conns) + [a]), daemon=True)
        pr.start()
        b.close()
        conns.append(a)
        procs.append(pr)
    queue: list = []
    for ci, c in enumerate(cases):
        for pi in range(len(getattr(c, tier))):
            queue.append((ci, pi, [[]]))
    queue.reverse()
    n_configs = len(queue)
    max_samples = 6 if n_configs > 60 else 12 if n_configs > 25 else 25
    info = {(ci, pi): {"paths": 0, "samples": 0, "reached": set(), "time": 0.0, "left": 1, "z3": 0.0} for ci, pi, _ in queue}
    from .core import Stats

    total = Stats()
    failures: list = []
    unsupported: list = []
    n_unsupported = 0
    tries: list = []
    models: list = []
    busy: dict = {}
    timed_out = False
    violation = None
    seen_labels: set = set()
    known = load_known(prop)
    known_hit: dict = {}
    inconclusive: list = []
    skipped: dict = {}
    last_print = time.time()
    strict = bool(os.environ.get("SYMX_STRICT"))

    def handle_failures(new: list) -> Any:
        todo = []
        for ci, pi, label, inputs, detail in new:
            k = is_known(known, cases[ci].name, label, inputs)
            if k is not None:
                known_hit.setdefault(json.dumps(k, sort_keys=True), (ci, pi, label, inputs))
                continue
            todo.append((ci, pi, label, inputs, detail))
        todo = todo[:8]
        if not todo:
            return None
        items = [{"prop": prop, "case": cases[ci].name, "tier": tier, "params_index": pi, "inputs": inputs} for ci, pi, _, inputs, _ in todo]
        res = replay_batch(items)
        for (ci, pi, label, inputs, detail), it, r in zip(todo, items, res):
            labels = [f[0] for f in r["failures"]]
            if r.get("harness_error"):
                inconclusive.append({"harness_error": r["harness_error"]})
            elif r["failures"]:
                bad = [f for f in r["failures"] if is_known(known, cases[ci].name, f[0], inputs) is None]
                if bad:
                    return (it, bad, detail)
            else:
                inconclusive.append({"case": cases[ci].name, "params": getattr(cases[ci], tier)[pi], "label": label, "inputs": inputs, "detail": detail, "replayed": labels})
        return None

    try:
        while queue or busy:
            if time.time() > deadline - 25:
                timed_out = True
                break
            for c in conns:
                if c in busy or not queue:
                    continue
                ci, pi, prefixes = queue.pop()
                st = info[(ci, pi)]
                sp = 0.0 if st["samples"] >= max_samples else 1.0 if st["paths"] < max_samples // 2 else 0.02
                c.send((ci, pi, prefixes, sp, deadline - 20))
                busy[c] = (ci, pi)
            for c in wait(list(busy), timeout=5):
                try:
                    r = c.recv()
                except EOFError:
                    raise RuntimeError("worker died")
                del busy[c]
                ci, pi = r["case"], r["params"]
                st = info[(ci, pi)]
                total.add(r["stats"])
                st["paths"] += r["stats"]["paths"]
                st["time"] += r["time"]
                st["reached"] |= r["reached"]
                for m in r["models"]:
                    if st["samples"] < max_samples:
                        st["samples"] += 1
                        models.append((ci, pi, m))
                pend = r["pending"]
                if pend:
                    # hand out the shallow prefixes separately
                    if len(queue) < 4 * nw:
                        for x in pend:
                            queue.append((ci, pi, [x]))
                    else:
                        queue.append((ci, pi, pend))
                n_unsupported += r["n_unsupported"]
                if len(tries) < 3000:
                    tries.extend((ci, pi, x) for x in r["tries"])
                if len(unsupported) < 50:
                    unsupported.extend((cases[ci].name, getattr(cases[ci], tier)[pi], u) for u in r["unsupported"])
                if r["budget"]:
                    timed_out = True
                if r.get("skipped"):
                    skipped.setdefault(r["skipped"], set()).add((ci, pi))
                if r["failures"]:
                    new = []
                    for label, inputs, detail in r["failures"]:
                        failures.append((ci, pi, label, inputs, detail))
                        if (ci, pi, label) in seen_labels and len(known) == 0:
                            continue
                        seen_labels.add((ci, pi, label))
                        new.append((ci, pi, label, inputs, detail))
                    violation = handle_failures(new)
                    if violation:
                        break
            if violation or timed_out or (strict and n_unsupported > 20) or len(inconclusive) > 30:
                break
            if verbose and time.time() - last_print > 5:
                last_print = time.time()
                print(f"[{time.time() - t_start:.0f}s] queue {len(queue)} paths {total.paths} z3 {total.z3_time:.1f}s", file=sys.stderr)
    finally:
        functions: set = set()
        for c, pr in zip(conns, procs):
            try:
                if c not in busy:
                    c.send(None)
                    if c.poll(10):
                        functions |= set(c.recv()["functions"])
            except (OSError, EOFError):
                pass
        for pr in procs:
            pr.terminate()
        for pr in procs:
            pr.join(5)

    # -- paths that reach an operation without a symbolic model: solver models of these paths, on the real code
    n_tried = 0
    if not violation and tries:
        chunks = [c for c in (tries[i::nw] for i in range(nw)) if c]
        from concurrent.futures import ThreadPoolExecutor

        def go_tries(ch):
            its = [{"prop": prop, "case": cases[ci].name, "tier": tier, "params_index": pi, "inputs": m, "partial": True} for ci, pi, m in ch]
            return list(zip(its, replay_batch(its, tmo=max(60, deadline + 60 - time.time()))))

        with ThreadPoolExecutor(nw) as ex:
            for it, r in [x for l in ex.map(go_tries, chunks) for x in l]:
                n_tried += 1
                if r.get("harness_error") or r["skipped"]:
                    continue
                bad = [f for f in r["failures"] if is_known(known, it["case"], f[0], it["inputs"]) is None]
                if bad:
                    violation = violation or (it, bad, "found on a path outside of the encoding")

    # -- concrete validation of sampled paths
    validated = 0
    mismatches: list = []
    samples: list = []
    if not violation and models:
        rnd = random.Random(seed)
        rnd.shuffle(models)
        models = models[: 600 if tier == "quick" else 3000]
        chunks = [models[i::nw] for i in range(nw)]
        chunks = [c for c in chunks if c]
        from concurrent.futures import ThreadPoolExecutor

        def go(ch):
            return replay_batch(
                [{"prop": prop, "case": cases[ci].name, "tier": tier, "params_index": pi, "inputs": m[0]} for ci, pi, m in ch],
                tmo=max(60, deadline + 60 - time.time()),
            )

        with ThreadPoolExecutor(nw) as ex:
            results = list(ex.map(go, chunks))
        for ch, rs in zip(chunks, results):
            for (ci, pi, (inputs, obs)), r in zip(ch, rs):
                it = {"prop": prop, "case": cases[ci].name, "tier": tier, "params_index": pi, "inputs": inputs}
                if r.get("harness_error"):
                    mismatches.append((it, r["harness_error"], ""))
                    continue
                if r["skipped"]:
                    mismatches.append((it, "assumption not satisfied concretely", ""))
                    continue
                bad = [f for f in r["failures"] if is_known(known, cases[ci].name, f[0], inputs) is None]
                if bad:
                    violation = violation or (it, bad, "found while validating the encoding")
                elif r["failures"]:
                    pass
                elif r["observations"] != obs:
                    mismatches.append((it, "observations differ", (obs, r["observations"])))
                else:
                    validated += 1
                    if len(samples) < 12:
                        samples.append({"case": cases[ci].name, "params": _js(getattr(cases[ci], tier)[pi]), "inputs": inputs})

    # -- reachability witnesses
    vacuous = []
    if not violation and not timed_out and not only:
        skipped_configs = set().union(*skipped.values()) if skipped else set()
        for (ci, pi), st in info.items():
            if (ci, pi) in skipped_configs and len(skipped_configs) < len(info):
                continue
            if n_unsupported and not st["paths"]:
                continue
            if st["paths"] and not st["reached"]:
                vacuous.append((cases[ci].name, pi))
            if not st["paths"] and not failures:
                vacuous.append((cases[ci].name, pi))

    wall = time.time() - t_start
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total.paths, "transitions": total.decisions, "traces_validated_against_impl": validated,
            "samples": samples or [{"inputs": "none (run ended on a violation)"}],
            "exhaustive": not timed_out and not unsupported and not violation,
            "explanation": "states = feasible symbolic paths explored to their end (each covers all the values of its unknowns); transitions = branch decisions; traces_validated_against_impl = models of paths whose outcome was reproduced by the uninstrumented code",
            "cases": [
                {"case": c.name, "bounds": c.bounds, "configs": len(getattr(c, tier)),
                 "paths": sum(info[(ci, pi)]["paths"] for pi in range(len(getattr(c, tier)))),
                 "assertions_reached": sorted(set().union(*[info[(ci, pi)]["reached"] for pi in range(len(getattr(c, tier)))]))[:60],
                 "cpu_s": round(sum(info[(ci, pi)]["time"] for pi in range(len(getattr(c, tier)))), 1)}
                for ci, c in enumerate(cases)
            ],
            "paths_outside_of_the_encoding": n_unsupported, "models_of_these_paths_run_on_the_real_code": n_tried,
            "skipped_because_an_internal_function_is_missing": sorted(skipped),
            "forks": total.forks, "infeasible_paths": total.infeasible,
            "solver_queries": total.z3_checks, "solver_time_s": round(total.z3_time, 2),
            "assertion_queries_discharged": total.prove_queries, "assertions_decided_without_query": total.prove_trivial,
            "functions_encoded": sorted(f for f in functions if not f.startswith("props")),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + GENERAL_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if verbose:
        for (ci, pi), st in sorted(info.items(), key=lambda x: -x[1]["time"])[:int(os.environ.get('SYMX_TOP', '12'))]:
            print(f"   {cases[ci].name}{getattr(cases[ci], tier)[pi]}: paths {st['paths']} cpu {st['time']:.1f}s", file=sys.stderr)
    print(f"{prop} {tier}: paths={total.paths} decisions={total.decisions} queries={total.z3_checks} solver={total.z3_time:.1f}s "
          f"proved={total.prove_queries}+{total.prove_trivial} validated={validated} wall={wall:.1f}s")

    if violation:
        it, bad, detail = violation
        rp = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"item": it, "failures": bad}, f, indent=1)
        print(f"case {it['case']} params {_js(getattr([c for c in cases if c.name == it['case']][0], tier)[it['params_index']])}")
        print(f"inputs {json.dumps(it['inputs'])}")
        for l, d in bad[:4]:
            print(f"  failed: {l}\n{_indent(d)}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for kj, (ci, pi, label, inputs) in known_hit.items():
        k = json.loads(kj)
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    if inconclusive:
        print(f"ERROR: {len(inconclusive)} counterexamples do not reproduce on the real code (encoding error)")
        for x in inconclusive[:3]:
            print(json.dumps(x, default=str)[:3000])
        rc = 2
    if mismatches:
        print(f"ERROR: {len(mismatches)} sampled paths behave differently on the real code (encoding error)")
        for it, why, d in mismatches[:3]:
            print(json.dumps(it)[:1500], why, _diff(d))
        rc = 2
    if unsupported:
        hard = strict or total.paths == 0 or any("the harness itself failed" in u for _, _, u in unsupported)
        print(f"{'ERROR' if hard else 'NOTE'}: {n_unsupported} paths reach an operation without a symbolic model: they are outside of what is shown"
              f" ({n_tried} solver models of these paths were run on the real code)")
        for n, p, u in unsupported[:3]:
            print(n, p, u[:2500] if hard else u.split(chr(10))[0])
        if hard:
            rc = 2
    if timed_out:
        print(f"ERROR: out of time, exploration incomplete ({len(queue)} open prefixes)")
        rc = 2
    if vacuous:
        print(f"ERROR: no assertion reached in {vacuous[:10]}")
        rc = 2
    return rc


GENERAL_ASSUMPTIONS = [
    "strings: unknown characters range over the alphabet named in the bounds of each case, lengths are fixed or enumerated",
    "srcML (native C++ parser) is executed for real; unknown identifier characters are opaque to it (identifiers that could be C++ keywords are excluded by assumption and this is checked at the boundary)",
    "functools caches live as long as the path, are unbounded, and an entry is found if its key is the same text (same unknowns); iteration order of sets is the insertion/hash order of one run",
]


def _js(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def _indent(s: str) -> str:
    return "\n".join("      " + l for l in str(s)[:3000].split("\n"))


def _diff(d) -> str:
    if isinstance(d, tuple):
        a, b = d
        if isinstance(a, list) and isinstance(b, list):
            for x, y in zip(a, b):
                if x != y:
                    return f"\n  predicted: {str(x)[:1500]!r}\n  real:      {str(y)[:1500]!r}"
        return f"\n  predicted: {str(a)[:1000]}\n  real:      {str(b)[:1000]}"
    return str(d)
