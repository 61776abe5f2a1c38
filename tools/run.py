#!/usr/bin/env python3
"""Runs one check: run.py <property id> [--tier quick|thorough] [--replay FILE] [--space NAME]."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import checks  # noqa: E402

VERIF = build.VERIF


def known_findings(pid):
    """Entries of known_findings.json for this property: they name the space and key (call site and input class)."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--space")
    ap.add_argument("--jobs", type=int, default=min(16, os.cpu_count() or 8))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = checks.CHECKS[a.pid]
    try:
        binary = build.build(a.pid.lower(), spec["sources"], spec["components"], spec.get("flags", ()),
                             spec["libs"], spec.get("per_file_flags"), spec.get("exclude", ()), jobs=a.jobs)
        for extra in spec.get("extra", []):
            build.build(jobs=a.jobs, **extra)
    except RuntimeError as e:
        # The tree does not build: nothing was decided.
        print(str(e), file=sys.stderr)
        print("BUILD-FAILED property=%s" % a.pid)
        return 2
    build_s = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.pid.lower())
    env = dict(os.environ, VERIF_BIN=os.path.join(build.BUILD, "bin"), VERIF_REPO_DIR=build.REPO)
    try:
        if a.replay:
            return subprocess.run([binary, "--replay", a.replay, "--tier", a.tier, "--scratch", scratch], env=env).returncode
        out = os.path.join(scratch, "out.json")
        deadline = 560 if a.tier == "quick" else 3300
        cmd = [binary, "--tier", a.tier, "--seed", str(seed), "--out", out, "--scratch", scratch, "--jobs", str(a.jobs),
               "--deadline", str(deadline)]
        if a.space:
            cmd += ["--space", a.space]
        r = subprocess.run(cmd, env=env)
        if r.returncode != 0 or not os.path.exists(out):
            print("the explorer of %s died with %s" % (a.pid, r.returncode), file=sys.stderr)
            return 2
        with open(out) as f:
            res = json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    base = os.environ.get("VERIF_OUT", VERIF)
    rdir = os.path.join(base, "out")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.pid + "-"):
            os.unlink(os.path.join(rdir, f))
    known = known_findings(a.pid)
    rc, n, unreproduced, found = 0, 0, [], {}
    for v in res["violations"]:
        k = [x for x in known if x["space"] == v["space"] and x["key"] == v["key"]]
        if k:
            found[k[0]["what"]] = True
            continue
        if not v["reproduced"]:
            unreproduced.append({"space": v["space"], "key": v["key"], "msg": v["msg"]})
            continue
        n += 1
        path = os.path.join(rdir, "%s-%d.replay" % (a.pid, n))
        with open(path, "w") as f:
            f.write("property %s\nspace %s\npath %s\njob %s\nmode %s\n---\n%s: %s\n\n%s\n" % (
                a.pid, v["space"], v["path"], v["job"], v["mode"], v["key"], v["msg"], v["trace"]))
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        print("  [%s] %s: %s" % (v["space"], v["key"], v["msg"][:600]))
        rc = 1
    for k in found:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, k))
    for u in unreproduced:
        print("note: an alarm did not reproduce in a fresh process and is not reported: %s" % json.dumps(u)[:500])
    ev = {
        "property": a.pid,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": res["states"],
            "transitions": res["operations"],
            "traces_validated_against_impl": res["executions"],
            "samples": res["samples"],
            "comparisons_to_reference": res["comparisons"],
            "distinct_nontrivial": res["nontrivial"],
            "redundant_executions_pruned": res["pruned"],
            "exhaustive": bool(res["complete"]),
            "states_counter_saturated": res["states_capped"],
            "rule": spec.get("rule", "states: distinct reference-model states / input configurations reached; "
                             "transitions: operations and queries applied to the real code; traces: complete executions "
                             "of the real code compared step by step to the reference; distinct_nontrivial: executions "
                             "in which the outcome under test was not the trivial one (e.g. non-empty result)."),
            "spaces": res["spaces"],
            "unreproduced_alarms": unreproduced,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": n,
    }
    for k, v in res.get("extra", {}).items():
        ev["coverage"][k] = v
    ev["coverage"]["build_s"] = round(build_s, 3)
    os.makedirs(os.path.join(base, "evidence"), exist_ok=True)
    with open(os.path.join(base, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %s executions, %s states, %s operations, %s comparisons, exhaustive=%s, %.1f s (build %.1f s)" % (
        a.pid, a.tier, res["executions"], res["states"], res["operations"], res["comparisons"], res["complete"],
        time.time() - t0, build_s))
    return rc


if __name__ == "__main__":
    sys.exit(main())
