#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--only HARNESS[,HARNESS]] [--list]

Decides one property on /repo's current source: every harness of the property is executed symbolically
(symnp/), z3 decides every branch and every assertion; counterexamples are replayed on the real code in a
fresh process before they are reported."""
import os
import sys
VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(VENV) and not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv(VENV, [VENV, "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import argparse
import hashlib
import json
import multiprocessing as mp
import subprocess
import time
import traceback
import warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import boot
boot.setup()

import z3
from symnp import harness as hmod, runner, findings
import harnesses

LEVEL = "model_checking"

def task(arg):
    name, params, budget = arg
    try:
        return runner.explore(name, params, budget_s=budget)
    except BaseException:
        return {"harness": name, "params": params, "crash": traceback.format_exc()[-3000:]}

def rundemo(fid):
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "replay.py"), "--finding", fid], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        return p.returncode
    except subprocess.TimeoutExpired:
        return 124

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that the engine and the package under test load")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default=None)
    ap.add_argument("--budget", type=float, default=None, help="seconds per exploration task")
    ap.add_argument("--wall", type=float, default=None, help="seconds for everything")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--keepgoing", action="store_true", help="do not stop at the first confirmed violation")
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    z3.set_param("smt.random_seed", seed % 1000)
    t0 = time.time()
    budget = args.budget or (240 if tier == "quick" else 1500)
    wall = args.wall or (660 if tier == "quick" else 5400)

    harnesses.load_all()
    if args.setup:
        list(runner.copies())
        print("loaded", len(hmod.REGISTRY), "harnesses; z3", z3.get_version_string())
        return 0
    hs = [h for h in hmod.REGISTRY.values() if prop in h.prop and (args.only is None or any(h.name.startswith(x) for x in args.only.split(",")))]
    if not hs:
        print("no harness for property", prop)
        return 3
    try:
        list(runner.copies())
    except BaseException:
        traceback.print_exc()
        print("ERROR: the package under test could not be imported")
        return 3
    tasks = []
    for h in hs:
        for p in (h.quick if tier == "quick" else h.thorough):
            tasks.append((h.name, p, budget))
    results, confirmed, unconfirmed = [], [], []
    timedout = False
    stop = False
    pool = mp.Pool(args.jobs, maxtasksperchild=6)
    it = pool.imap_unordered(task, tasks, 1)
    done = 0
    while done < len(tasks) and not stop:
        left = wall - (time.time() - t0)
        try:
            r = it.next(timeout=max(1.0, left))
        except mp.TimeoutError:
            timedout = True
            break
        except StopIteration:
            break
        done += 1
        results.append(r)
        if args.verbose:
            show(r)
        for v in r.get("violations", []):
            path = save(prop, v)
            if confirm(path):
                v["replay"] = path
                confirmed.append(v)
                if not args.keepgoing:
                    stop = True
                    break
            else:
                unconfirmed.append(v)
    pool.terminate()
    pool.join()

    known = []
    for f in findings.listed(prop):
        rc = rundemo(f["id"])
        known.append({"id": f["id"], "what": f["what"], "still_fails": rc == 1, "rc": rc})
        if rc == 1:
            print("KNOWN-FINDING: property={0} {1}: {2}".format(prop, f["id"], f["what"]))
        elif rc != 0:
            print("WARNING: demonstration of {0} ended with {1}".format(f["id"], rc))

    crashes = [r for r in results if "crash" in r]
    good = [r for r in results if "crash" not in r]
    tot = lambda k: sum(r[k] for r in good)
    cnt = lambda k: sum(len(r[k]) for r in good)
    functions, numpyf, fallback = set(), set(), set()
    for r in good:
        functions.update(r["functions"])
        numpyf.update(r["numpy"])
        fallback.update(r["fallback"])
    # vacuity guards: every harness reached at least one path whose assertions were decided, and the situations it declares
    vacuous = []
    if not stop and not timedout:
        for h in hs:
            mine = [r for r in good if r["harness"] == h.name]
            reach = set()
            for r in mine:
                reach.update(r["reach"])
            if sum(r["validated"] for r in mine) == 0 and not any(r["violations"] or r["unreproduced"] for r in mine):
                vacuous.append(h.name)
            for need in h.need:
                if need not in reach and all(r["complete"] for r in mine):
                    vacuous.append("{0}: {1}".format(h.name, need))
    undecided = cnt("incomplete") + cnt("unreproduced") + cnt("mismatch") + cnt("errors")
    samples = []
    for r in good:
        for s in r["samples"][:1]:
            samples.append(dict(harness=r["harness"], params=r["params"], **s))
    samples = samples[:: max(1, len(samples) // 12)][:14]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"), "traces_validated_against_impl": tot("validated"), "samples": samples,
            "explanation": "states = feasible symbolic paths through harness and real code, each standing for all inputs satisfying its path condition; transitions = two-way or many-way decisions forked by the solver; every explored path was also run concretely on the real package with a solver-chosen witness and its observations compared",
            "assertions_decided": tot("checks"), "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2), "solver_unknown": tot("unknowns"),
            "infeasible_paths": tot("infeasible"), "undecided_paths": cnt("incomplete"), "unreproduced_counterexamples": cnt("unreproduced"), "encoding_mismatches": cnt("mismatch"), "harness_errors": cnt("errors"),
            "harnesses": [{"harness": h.name, "bounds": h.bounds, "configurations": [
                {"params": r["params"], "paths": r["paths"], "validated": r["validated"], "assertions": r["checks"], "exhausted_bounds": r["complete"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall_s"], 1)}
                for r in good if r["harness"] == h.name]} for h in hs],
            "tasks": len(tasks), "tasks_finished": len(good), "tasks_exhausted": sum(1 for r in good if r["complete"]),
            "functions_encoded": sorted(functions), "numpy_modelled": sorted(numpyf), "numpy_concretised": sorted(fallback), "known_findings": known,
            "problems": ([{"unreproduced": x} for r in good for x in r["unreproduced"]] + [{"mismatch": x} for r in good for x in r["mismatch"]] + [{"error": x} for r in good for x in r["errors"]] + [{"undecided": x} for r in good for x in r["incomplete"]] + [{"crash": r["crash"]} for r in crashes])[:20],
        },
        "assumptions": ["symnp/nd.py models the numpy functions listed in numpy_modelled with numpy 1.23's semantics (checked on every path by running the witness on the real numpy, and by tools/selftest.py); functions in numpy_concretised are executed by the real numpy after forking over all feasible values",
                        "bounds are those stated per harness; nothing is claimed outside of them", "z3 " + z3.get_version_string() + " is trusted"],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    print("property {0} tier {1}: {2}/{3} tasks, {4} paths, {5} validated on the real code, {6} assertions, {7} queries, solver {8:.1f} s, wall {9:.1f} s".format(
        prop, tier, len(good), len(tasks), tot("paths"), tot("validated"), tot("checks"), tot("queries"), tot("solver_s"), time.time() - t0))
    if confirmed:
        for v in confirmed:
            print("{0} {1}: {2}: {3}".format(v["harness"], v["params"], v["label"], v["info"][:600]))
            print("VIOLATION property={0} replay={1}".format(prop, v["replay"]))
        return 1
    for r in crashes:
        print("ERROR: task {0} {1} crashed: {2}".format(r["harness"], r["params"], r["crash"][-800:]))
    if timedout:
        print("WARNING: wall-clock limit reached, {0} of {1} tasks finished".format(done, len(tasks)))
    short = [r for r in good if not r["complete"]]
    if short:
        print("WARNING: {0} task(s) did not exhaust their bounds: {1}".format(len(short), ", ".join(sorted(set(r["harness"] for r in short)))))
    if undecided:
        print("WARNING: {0} undecided paths ({1} outside the encoding, {2} counterexamples that the real code does not reproduce, {3} encoding mismatches, {4} errors)".format(
            undecided, cnt("incomplete"), cnt("unreproduced"), cnt("mismatch"), cnt("errors")))
    for v in unconfirmed:
        print("WARNING: a violation was not confirmed in a fresh process:", v["label"], v["info"][:300])
    if vacuous:
        print("ERROR: vacuous:", "; ".join(vacuous))
        return 3
    if len(crashes) * 2 > len(tasks) or tot("paths") == 0 or undecided * 2 > tot("paths"):
        print("ERROR: the property could not be decided")
        return 3
    return 0

def show(r):
    if "crash" in r:
        print(r["harness"], r["params"], r["crash"])
        return
    flag = "" if r["complete"] and not (r["unreproduced"] or r["mismatch"] or r["errors"] or r["incomplete"]) else "  <<<<"
    print("%-30s %-60s paths %5d valid %5d checks %5d q %6d solver %5.1f wall %5.1f viol %d unrep %d mism %d err %d inc %d%s%s" % (
        r["harness"], r["params"], r["paths"], r["validated"], r["checks"], r["queries"], r["solver_s"], r["wall_s"], len(r["violations"]), len(r["unreproduced"]), len(r["mismatch"]), len(r["errors"]), len(r["incomplete"]), "" if r["complete"] else " INCOMPLETE", flag))
    for k in ("violations", "unreproduced", "mismatch", "errors", "incomplete"):
        for v in r[k][:1 if k != "violations" else 2]:
            print("   ", k, json.dumps({a: b for a, b in v.items() if a not in ("harness", "params")}, default=str)[:1500])
    sys.stdout.flush()

def save(prop, v):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, "harness": v["harness"], "params": v["params"], "label": v["label"], "info": v["info"], "how": v["how"], "values": v["values"]}, indent=1, default=str, sort_keys=True)
    path = os.path.join("evidence", "replays", "{0}-{1}.json".format(prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(os.path.join(HERE, path), "w") as f:
        f.write(body)
    return path

def confirm(path):
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "replay.py"), path], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1

if __name__ == "__main__":
    sys.exit(main())
