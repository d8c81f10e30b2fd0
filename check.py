#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] — decide one property; check.py --prebuild — warm the builds."""
import json, os, sys, time
import vlib
from props import PROPS


def main():
    if sys.argv[1] == "--prebuild":
        vlib.build_bitcode()
        vlib.build_native("release")
        vlib.build_native("dev")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    p = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(vlib.V, "evidence"), exist_ok=True)
    ev_path = os.path.join(vlib.V, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    bcs = vlib.build_bitcode()
    t_build = time.time() - t0
    known = [k for k in vlib.known_findings() if k[0] == pid]
    groups = [g for g in p["groups"] if tier == "thorough" or g.get("tier", "quick") == "quick"]
    results, errors, viols, notes = [], [], [], []
    for i, g in enumerate(groups):
        opts = list(g.get("opts", []))
        for k in known:
            opts += ["--known", k[2]]
        secs = g.get("secs", 300) * (6 if tier == "thorough" else 1)
        rs = vlib.explore(bcs, g["entries"], opts, secs, os.path.join(vlib.B, "out-%s-%d.json" % (pid, i)))
        for r in rs:
            r["group"] = g
        results += rs
        if any(v for r in rs for v in r["viols"] if not any(k[1] == r["entry"] and k[2] == v["label"] for k in known)):
            break
    for r in results:
        for v in r["viols"]:
            k = [k for k in known if k[1] == r["entry"] and k[2] == v["label"]]
            if k:
                notes.append("KNOWN-FINDING: property=%s %s" % (pid, k[0][3]))
                continue
            rp, log = vlib.confirm(pid, r, v, r["group"].get("repeat", 1))
            if rp:
                viols.append((r["entry"], v, rp))
                break
            errors.append("counterexample of %s (%s: %s) does not reproduce natively:\n%s" % (r["entry"], v["label"], v["detail"], "\n".join(log)))
        if viols:
            break
    validated = 0
    if not viols:
        for r in results:
            if r["unsup"]:
                errors.append("%s: %s" % (r["entry"], json.dumps(r["unsup"], indent=1)))
            if r["timed_out"] or r["crashed"] or r["inconclusive"] or r["unknown"]:
                errors.append("%s: exploration incomplete (timed out %s, crashed %s, inconclusive %s)" % (r["entry"], r["timed_out"], r["crashed"], r["inconclusive"]))
            for c in r["group"].get("covers", []):
                cs = [c] if isinstance(c, str) else c
                if not any(x in r["covers"] for x in cs):
                    errors.append("%s: never reached %s (vacuous)" % (r["entry"], c))
        if not errors:
            exe = vlib.native("release")
            for r in results:
                if r["group"].get("novalidate"):
                    continue
                n, bad = vlib.validate_samples(r, exe)
                validated += n
                errors += bad
    for post in p.get("post", []):
        if not viols and not errors:
            post(pid, tier, results, errors, viols, notes)
    tot = lambda k: sum(r[k] for r in results)
    fns = sorted({f for r in results for f in r["functions"] if "cambrian::" in f})
    samples = [{"entry": r["entry"], "values": [[n, str(x)] for n, _w, x in s["values"][:60]], "observed": s["obs"][:400]} for r in results for s in r["samples"][:1]][:6]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": validated, "samples": samples or ["none"],
            "killed_by_assumption": tot("killed"), "instructions_executed_symbolically": tot("instrs"),
            "assertions_evaluated": tot("checks"), "assertions_decided_without_query": tot("trivial_checks"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "query_cache_hits": tot("cached"),
            "solver_s": round(sum(r["solver_s"] for r in results), 3), "longest_query_s": max([r["max_query_s"] for r in results] or [0]),
            "bounds": p["bounds"], "outside": p["outside"],
            "functions_encoded": fns,
            "entries": [{k: r[k] for k in ("entry", "wall_s", "paths", "killed", "queries", "unsat", "sat", "max_depth", "covers", "labels")} for r in results],
            "what_states_and_transitions_count": "states: completed symbolic paths (each stands for all inputs of its path condition); transitions: solver-decided two-sided branches",
            "build_s": round(t_build, 2),
        },
        "assumptions": p["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    for post in p.get("evidence", []):
        post(ev, results)
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for n in sorted(set(notes)):
        print(n)
    for e, v, rp in viols:
        print("%s: %s (%s) in %s" % (e, v["label"], v["detail"], " < ".join(v["trace"].split("|")[:6])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if viols:
        return 1
    if errors:
        print("\n".join(errors))
        print("ERROR: the check reached no verdict")
        return 2
    print("OK %s %s: %d paths, %d queries, %.1f s solver, %d traces validated, %.0f s" % (pid, tier, tot("paths"), tot("queries"), sum(r["solver_s"] for r in results), validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
