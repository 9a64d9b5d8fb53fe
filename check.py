#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree. Tier from VERIF_TIER, seed from VERIF_SEED."""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import props
from runner import VERIF, REPO, Runner


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop) and " key=" in line:
                out.append(line.split(" key=", 1)[1])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    spec = props.PROPS[prop]
    plan = spec(tier, seed)
    cfg = dict(deadline=600.0 if tier == "quick" else 6 * 3600.0, cost=plan.cost, time_per_run=plan.time_per_run,
               steps=plan.steps, witness_tus=2 if tier == "quick" else 6, tu_weight=plan.tu_weight)
    run = Runner(prop, plan.preludes, tier=tier, known=known_findings(prop), **cfg)
    res = run.run(plan.units)

    # a witness input of a passing path that fails natively is a failing execution of the real code
    for v in res.validation_failures[:3]:
        print("note: native run of a passing path failed: %s" % json.dumps(v))

    for v in res.unreproduced[:5]:
        print("note: solver counterexample not reproduced by the native code (inconclusive): %s" % json.dumps(v)[:500])
        res.inconclusive.append((v["label"], v["fn"], v["args"], "counterexample not reproduced"))

    runs = res.runs
    tot = lambda k: sum(d.get(k, 0) for d in runs)
    covers = {}
    for d in runs:
        for k, n in d["covers"].items():
            covers[k] = covers.get(k, 0) + n
    bounds = {}
    for d in runs:
        if d["status"] == "ok" and d["args"]:
            bounds[d["fn"]] = max(bounds.get(d["fn"], -1), d["args"][0])
    hist = {}
    for b in bounds.values():
        hist[str(b)] = hist.get(str(b), 0) + 1
    fns, lines = {}, 0
    for f, (names, lns) in sorted(res.files.items()):
        if "mregex" in f and "/verif/" not in f and "ref.hpp" not in f:
            fns[f.split("include/")[-1]] = sorted({n.split("<")[0] for n in names})
            lines += len(lns)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"),
            "traces_validated_against_impl": res.validated,
            "samples": [{"harness": d["label"], "function": d["fn"], "bound": d["args"], "paths": d["paths"], "queries": d["queries"]}
                        for d in runs[:: max(1, len(runs) // 12)]][:14],
            "meaning": "states = completed symbolic paths (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically",
            "programs": res.programs, "translation_units": res.tus, "runs": len(runs),
            "runs_ok": sum(1 for d in runs if d["status"] == "ok"),
            "checks_evaluated": tot("checks"), "checks_decided_by_solver_query": tot("checks_sym"),
            "path_forks": tot("forks"),
            "solver": {"name": "Z3 4.8.12 (C API), QF_BV", "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"),
                       "answers_from_cache": tot("cache_hits"), "seconds": round(tot("solver_s"), 3)},
            "bound_histogram": {"meaning": "input length (or first argument) fully covered -> number of harness functions", "values": hist},
            "bounds": plan.bounds, "outside_the_bounds": plan.outside,
            "vacuity_witnesses": covers,
            "functions_encoded": fns, "source_lines_executed": lines,
            "inconclusive": [{"harness": l, "function": f, "args": a, "status": s} for l, f, a, s in res.inconclusive[:40]],
            "inconclusive_count": len(res.inconclusive),
            "counterexamples_not_reproduced_natively": res.unreproduced[:10],
            "native_failures_of_passing_paths": res.validation_failures[:10],
            "units_not_run": res.skipped_units,
            "compile_s": round(res.compile_s, 1),
        },
        "assumptions": plan.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(res.violations),
    }
    ev["coverage"].update(plan.extra(res) if plan.extra else {})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, sort_keys=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    for k, label, hit in run.known_hits:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, hit))
    for v in res.violations:
        print("violated: %s: input bytes %s: solver: %s; native: %s" % (v["label"], v["bytes"], v["msg"][:300], v["native"][:300]))
    for v in res.violations:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%s %s: %d programs, %d runs, %d paths, %d queries (%.1f s solver), %d inconclusive, %.1f s" %
          (prop, tier, res.programs, len(runs), tot("paths"), tot("queries"), tot("solver_s"), len(res.inconclusive), time.time() - t0))
    if res.violations:
        return 1
    if res.errors:
        print(res.errors[0])
        return 2
    if not any(d["status"] == "ok" for d in runs):
        print("nothing was decided")
        return 2
    for need in plan.needs:
        if not covers.get(need):
            print("vacuity: no path reaches '%s'" % need)
            if not res.inconclusive:
                return 2
    return 0


sys.exit(main())
