#!/usr/bin/env python3
"""semrun.py FILE [WORKERS]: runs the checks on each mutant of FILE (a Python list `M` of (pid, file, old, new)).
Prints SURVIVED/killed per mutant."""
import sys, subprocess, concurrent.futures as cf, os, threading
import json
KNOWN = {k["property"] for k in json.load(open("/verif/known_findings.json"))["findings"]}
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = int(sys.argv[2]) if len(sys.argv) > 2 else 4
def run(i, m):
    pid, f, old, new = m[:4]
    src = open("/repo/" + f).read()
    if src.count(old) < 1:
        return f"{i} NOMATCH {pid} {f}: {old[:60]!r}"
    expr = "s.replace(%r,%r,1)" % (old, new)
    p = subprocess.run(["/verif/tools/mutate.sh", pid, f, expr], capture_output=True, text=True, timeout=3000, env={**os.environ, **({} if pid in KNOWN else {"VERIF_FIRST": "1"}), "LINES_OUT": "40", "MUTB": str(threading.get_ident() % 100000)})
    out = p.stdout + p.stderr
    st = "killed" if "VIOLATION" in out else "SURVIVED"
    if "error:" in out: st = "NOBUILD?"
    tail = [l for l in out.splitlines() if l.strip()][-2:]
    return f"{i} {st} {pid} {f}: {new[:70]!r}" + ("" if st == "killed" else "\n     " + " | ".join(t[:200] for t in tail))
with cf.ThreadPoolExecutor(W) as ex:
    fs = [ex.submit(run, i, m) for i, m in enumerate(ns["M"])]
    for f in cf.as_completed(fs):
        print(f.result(), flush=True)
