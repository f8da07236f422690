#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SUBSTR] [--jobs N]

Symbolically executes /repo's current sources against the harnesses of one property and
decides every assertion with z3.  Exit 0: held on everything explored.  Exit 1: a
counterexample that was replayed on the unmodified code (VIOLATION line).
"""

import argparse
import importlib.util
import json
import logging
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
sys.set_int_max_str_digits(0)
logging.disable(logging.CRITICAL)

import z3  # noqa: E402

from symx import core, harness, instrument, models  # noqa: E402


def make_loader():
    import construct

    site = os.path.dirname(os.path.dirname(construct.__file__))
    return instrument.Loader(
        {"objutils": REPO, "harness": VERIF, "construct": site},
        stubs={"objutils.logger": lambda ld: models.make_logger_module()},
    )


def harness_files(prop):
    out = []
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                if f'"{prop}"' in fh.read():
                    out.append(f[:-3])
    return out


def load_cases(prop, tier, only=None):
    import importlib

    loader = make_loader()
    tasks = []
    for name in harness_files(prop):
        nat = importlib.import_module("harness." + name)
        sym = loader.load("harness." + name)
        for attr, fn in sorted(vars(nat).items()):
            c = getattr(fn, "_sx_case", None)
            if c is None:
                continue
            props = c["prop"] if isinstance(c["prop"], (list, tuple)) else [c["prop"]]
            if prop not in props:
                continue
            if c["tier"] == "thorough" and tier != "thorough":
                continue
            grid = c["thorough_grid"] if tier == "thorough" and c["thorough_grid"] is not None else c["grid"]
            if only and only not in attr and only not in name:
                continue
            for p in grid:
                tasks.append(dict(name=attr, sym=getattr(sym, attr), nat=fn, params=p, opts=c["opts"], bounds=c["bounds"]))
    return loader, tasks


LOADER = None
TASKS = None
DEADLINE = None


def run_task(i):
    t = TASKS[i]
    try:
        import gc

        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("SX_DEBUG"):
            os.dup2(devnull, 1)
        left = DEADLINE - time.time()
        if left < 2:
            return i, dict(incomplete=["check budget used up before this harness started"], skipped=True)
        budget = min(t["opts"].get("budget", 10**6), left)
        r = harness.Runner(LOADER, t["sym"], t["nat"], t["params"], t["opts"], budget)
        return i, r.run()
    except BaseException as e:
        return i, dict(incomplete=[f"engine error {type(e).__name__}: {e}"], error=traceback.format_exc(), skipped=True)


def run_check(prop, tier, only=None, jobs=8, verbose=False):
    global LOADER, TASKS, DEADLINE
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = float(os.environ.get("SX_BUDGET", "600" if tier == "quick" else "10000"))
    DEADLINE = t0 + total
    LOADER, TASKS = load_cases(prop, tier, only)
    if not TASKS:
        print(f"no harness for {prop}")
        return 2
    order = sorted(range(len(TASKS)), key=lambda i: -TASKS[i]["opts"].get("weight", 1))
    results = {}
    ctx = mp.get_context("fork")
    stop = False
    with ctx.Pool(min(jobs, len(TASKS)), maxtasksperchild=1) as pool:
        for i, r in pool.imap_unordered(run_task, order, chunksize=1):
            results[i] = r
            if verbose:
                t = TASKS[i]
                print(
                    f"  {t['name']} {t['params']}: paths={r.get('paths')} ok={r.get('completed')} q={r.get('queries')} "
                    f"solver={r.get('solver_s', 0):.1f}s wall={r.get('wall', 0):.1f}s checks={r.get('checks')} "
                    f"viol={len(r.get('violations', []))} mism={len(r.get('mismatches', []))} inc={r.get('incomplete')} {r.get('flags')}"
                )
                for mm in r.get("mismatches", [])[:3]:
                    print("    MISMATCH", json.dumps(harness.jsonable(mm))[:1500])
                if r.get("error"):
                    print(r["error"])
            known = known_findings(prop)
            if not verbose and any(not is_known(known, TASKS[i], v) for v in r.get("violations", [])):
                stop = True
                break
        if stop:
            pool.terminate()
    return report(prop, tier, seed, t0, results)


def report(prop, tier, seed, t0, results):
    ev_dir = os.environ.get("SX_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev_dir, exist_ok=True)
    known = known_findings(prop)
    tot = dict(paths=0, completed=0, decisions=0, queries=0, solver_s=0.0, discharged=0, trivial=0, checks=0, validated=0)
    functions, incomplete, flags, samples, mism = set(), {}, set(), [], []
    harnesses = {}
    vacuous = []
    violations = []
    for i, r in sorted(results.items()):
        t = TASKS[i]
        h = harnesses.setdefault(t["name"], dict(bounds=t["bounds"], runs=0, paths=0, completed=0, assertions=0, queries=0, solver_s=0.0))
        h["runs"] += 1
        for k in tot:
            tot[k] += r.get(k, 0)
        h["paths"] += r.get("paths", 0)
        h["completed"] += r.get("completed", 0)
        h["assertions"] += r.get("checks", 0)
        h["queries"] += r.get("queries", 0)
        h["solver_s"] = round(h["solver_s"] + r.get("solver_s", 0), 3)
        functions.update(f for f in r.get("functions", []) if not f.startswith(("harness", "construct")))
        flags.update(r.get("flags", []))
        for x in r.get("incomplete", []):
            incomplete.setdefault(x, []).append(f"{t['name']}{t['params'] or ''}")
        mism.extend(r.get("mismatches", []))
        if len(samples) < 6:
            samples.extend(r.get("samples", [])[:1])
        for v in r.get("violations", []):
            violations.append((t, v))
        if not r.get("violations") and not r.get("skipped") and not (r.get("completed") and r.get("checks")):
            vacuous.append(f"{t['name']}{t['params']}")
    rc = 0
    shown_known = set()
    new = []
    for t, v in violations:
        k = is_known(known, t, v)
        if k is not None:
            shown_known.add(k["text"])
        else:
            new.append((t, v))
    for k in shown_known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if new:
        rdir = os.path.join(ev_dir, "cex")
        os.makedirs(rdir, exist_ok=True)
        t, v = new[0]
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, harness=t["name"], params=enc(t["params"]), inputs=enc(v["inputs"]), message=v["msg"], claimed=v["claimed"], outcome=v["outcome"]), f, indent=1)
        print(f"counterexample in {t['name']} {t['params']}: {v['msg']}")
        print("  inputs:", json.dumps(harness.jsonable(v["inputs"]))[:1500])
        print(f"  replay: /opt/venv/bin/python {os.path.join(VERIF, 'check.py')} {prop} --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    for x, where in sorted(incomplete.items()):
        print(f"INCONCLUSIVE ({x}): {', '.join(where[:4])}{' ...' if len(where) > 4 else ''}")
    for m in mism[:3]:
        print("MODEL-MISMATCH (inconclusive):", json.dumps(harness.jsonable(m))[:700])
    for v in vacuous[:5]:
        print(f"VACUOUS (no completed path reached an assertion): {v}")
    wall = time.time() - t0
    exhaustive = not incomplete and not mism and not vacuous and rc == 0
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot["paths"],
            transitions=tot["decisions"],
            traces_validated_against_impl=tot["validated"],
            samples=samples or ["none"],
            exhaustive=exhaustive,
            functions_encoded=sorted(functions),
            harnesses=harnesses,
            assertions_evaluated=tot["checks"],
            assertions_decided_by_simplification=tot["trivial"],
            assertions_discharged_by_solver=tot["discharged"],
            solver_queries=tot["queries"],
            solver_time_s=round(tot["solver_s"], 2),
            completed_paths_with_assertions=tot["completed"],
            inconclusive={k: len(v) for k, v in incomplete.items()},
            model_mismatches=len(mism),
            vacuous_harnesses=vacuous,
            solver="z3 " + z3.get_version_string(),
        ),
        assumptions=[
            "states = explored symbolic paths, transitions = branch decisions on symbolic conditions; every path covers all input values that satisfy its path condition, within the bounds listed per harness",
            "builtins and C library calls are replaced by the models in /verif/symx/models.py, validated on every path by replaying a solver model on the unmodified code and comparing all observations",
            "logging and console output are stubbed out",
        ],
        wall_s=round(wall, 2),
        violations=len(new),
    )
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    status = "VIOLATED" if rc else ("held within the stated bounds" if exhaustive else "no violation found (inconclusive parts above)")
    print(
        f"{prop} [{tier}] {status}: {tot['paths']} paths, {tot['checks']} assertions "
        f"({tot['discharged']} by solver, {tot['trivial']} by simplification), {tot['queries']} queries, "
        f"{tot['solver_s']:.1f}s solver, {tot['validated']} traces validated, {len(functions)} functions, {wall:.1f}s"
    )
    return rc


def is_known(known, t, v):
    return next((k for k in known if k["harness"] == t["name"] and k["match"] in v["msg"]), None)


def enc(v):
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    if isinstance(v, (bytes, bytearray)):
        return {"__bytes__": v.hex()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return v


def dec(v):
    if isinstance(v, dict):
        if "__bytes__" in v:
            return bytes.fromhex(v["__bytes__"])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def replay(prop, path):
    import importlib

    with open(path) as f:
        d = json.load(f)
    for name in harness_files(prop):
        nat = importlib.import_module("harness." + name)
        if hasattr(nat, d["harness"]):
            fn = getattr(nat, d["harness"])
            ctx = harness.NatCtx(dec(d["inputs"]), None)
            try:
                fn(ctx, **dec(d["params"]))
            except harness.CheckFailed as e:
                print(f"reproduced on the real code: {e}")
                return 1
            except Exception:
                traceback.print_exc()
                return 1
            finally:
                ctx.cleanup()
            print("not reproduced")
            return 0
    print("harness not found")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.prop, a.replay)
    return run_check(a.prop, a.tier, a.only, a.jobs, a.v)


if __name__ == "__main__":
    sys.exit(main())
