#!/opt/venv/bin/python
"""Check one property:  run.py C01 [--tier quick|thorough]
Replay a counterexample: run.py C01 --replay FILE
"""
import os
import sys
for var in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[var] = "1"
os.environ["MPLBACKEND"] = "Agg"
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True
# never trust bytecode that lies beside the sources
sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                  "mc-no-pycache-%d" % os.getpid())
sys.path[:0] = [REPO, HERE]

import argparse
import importlib
import json
import shutil
import time
import traceback


def main():
    par = argparse.ArgumentParser()
    par.add_argument("prop")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                     choices=["quick", "thorough"])
    par.add_argument("--replay")
    par.add_argument("--harness", help="only this harness")
    par.add_argument("--jobs", type=int, default=None)
    args = par.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    scratch = tempfile.mkdtemp(prefix="mc-%s-" % args.prop)
    os.environ["MC_SCRATCH"] = scratch
    if "MPLCONFIGDIR" not in os.environ:
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    try:
        return check(args, seed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(args, seed):
    t0 = time.time()
    import solidspy
    here = os.path.realpath(os.path.dirname(solidspy.__file__))
    assert here == os.path.realpath(os.path.join(REPO, "solidspy")), here
    from mc import core
    mod = importlib.import_module("props." + args.prop.lower())
    harnesses = mod.harnesses(args.tier)

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        har = [h for h in mod.harnesses(rec.get("tier", args.tier))
               if h.name == rec["harness"]][0]
        ctx, verdict = core.replay(har, rec["choices"])
        print(json.dumps(dict(trail=core.describe(ctx.trail),
                              verdict=verdict), indent=1))
        if isinstance(verdict, dict):
            print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
            return 1
        return 0

    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    rec = json.loads(line)
                    if rec.get("status") == "finding" and \
                            rec["property"] == args.prop:
                        known[rec["key"]] = rec["what"]

    results, violations = [], []
    for har in harnesses:
        if args.harness and har.name != args.harness:
            continue
        res = core.explore(har, known=tuple(known), jobs=args.jobs)
        results.append(res)
        print("%s %-28s executions=%d pruned=%d states=%d transitions=%d "
              "outcomes=%d depth=%d %.1fs%s" % (
                  args.prop, har.name, res["execs"], res["pruned"],
                  len(res["states"]), res["transitions"],
                  len(res["outcomes"]), res["maxdepth"], res["wall_s"],
                  "  VIOLATED" if res["violations"] else ""), flush=True)
        if res["violations"]:
            violations += res["violations"]
            break       # first counterexample: simplest harness, DFS order

    for key in sorted({k for r in results for k in r["known"]}):
        print("KNOWN-FINDING: property=%s %s" % (args.prop, known[key]))

    code = 0
    if violations:
        code = 1
        bad = violations[0]
        har = [h for h in harnesses if h.name == bad["harness"]][0]
        again = sum(isinstance(core.replay(har, bad["choices"])[1], dict)
                    for _ in range(3))
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        name = "".join(c if c.isalnum() else "_" for c in bad["harness"])
        rfile = os.path.join(rdir, "%s-%s.json" % (args.prop, name))
        with open(rfile, "w") as f:
            json.dump(dict(property=args.prop, tier=args.tier,
                           reproduced="%d/3" % again, **bad), f, indent=1)
        print("counterexample (%s, reproduced %d/3): %s" % (
            bad["harness"], again, bad["msg"]))
        for step in bad["trail"]:
            print("   %-18s = %s" % (step[0], step[3]))
        for k, v in (bad["detail"] or {}).items():
            print("   %s: %s" % (k, v))
        print("VIOLATION property=%s replay=%s" % (args.prop, rfile))

    states = set()
    for r in results:
        states |= {(r["harness"], s) for s in r["states"]}
    extra = {}
    for r in results:
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    evidence = dict(
        property=args.prop, tier=args.tier, seed=seed,
        level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=len(states),
            transitions=sum(r["transitions"] for r in results),
            traces_validated_against_impl=sum(r["execs"] for r in results),
            pruned_outside_domain=sum(r["pruned"] for r in results),
            distinct_outcomes=sum(len(r["outcomes"]) for r in results),
            exhaustive=not violations,
            samples=[dict(harness=r["harness"], trace=s)
                     for r in results for s in r["samples"][:1]],
            harnesses=[dict(name=r["harness"], bounds=r["bounds"],
                            executions=r["execs"], pruned=r["pruned"],
                            states=len(r["states"]),
                            transitions=r["transitions"],
                            distinct_outcomes=len(r["outcomes"]),
                            max_depth=r["maxdepth"], wall_s=r["wall_s"])
                       for r in results],
            **extra),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, args.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
