#!/usr/bin/env python3
"""Development aid: mutates /repo's sources (in scratch copies) and lists the mutants that no check reports.
campaign.py OUT PER_FILE WORKERS SEED [substring of file ...]"""
import os, random, re, shutil, subprocess, sys, threading, time, queue, json

OUT, PER, WORKERS, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
ONLY = sys.argv[5:]
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MAP = [
 ("src/maliput/common/filesystem.cc", "C25"), ("src/maliput/common/logger.cc", "C27"), ("src/maliput/common/range_validator.cc", "C22"),
 ("src/maliput/common/maliput_abort", "C27"),
 ("src/maliput/math/axis_aligned_box.cc", "C12 C11"), ("src/maliput/math/bounding_box.cc", "C12"), ("src/maliput/math/overlapping_type.cc", "C12"),
 ("src/maliput/math/", "C22"), ("include/maliput/math/kd_tree.h", "C11"), ("include/maliput/math/vector.h", "C22"), ("include/maliput/math/quaternion.h", "C22"),
 ("src/maliput/drake/arc", "C28"), ("src/maliput/drake/inv", "C28"), ("src/maliput/drake/systems/analysis", "C28"), ("src/maliput/drake/common/trajectories", "C28"), 
 ("src/maliput/api/lane_data.cc", "C29 C22 C08"), ("src/maliput/api/regions.cc", "C06"), ("src/maliput/api/road_geometry.cc", "C13 C09 C10"), ("src/maliput/api/road_network.cc", "C09"),
 ("src/maliput/api/road_network_validator.cc", "C09"), ("src/maliput/api/intersection.cc", "C07"), ("src/maliput/api/compare.cc", "C29"), ("src/maliput/api/basic_id_index.cc", "C08"),
 ("src/maliput/api/lane.cc", "C09 C08 C10"),
 ("src/maliput/api/rules/compare.cc", "C29"), ("src/maliput/api/rules/traffic_lights.cc", "C24 C23"), ("src/maliput/api/rules/phase", "C03 C04"),
 ("src/maliput/api/rules/", "C05 C02 C04"), ("include/maliput/api/rules/", "C05 C02 C03 C24"),
 ("src/maliput/base/distance_router.cc", "C16"), ("src/maliput/base/intersection_book_loader.cc", "C18"), ("src/maliput/base/intersection", "C07"),
 ("src/maliput/base/manual_rulebook.cc", "C02"), ("src/maliput/base/manual_phase_ring_book.cc", "C03"), ("src/maliput/base/manual_", "C04"), ("src/maliput/base/phase_based", "C04"), ("src/maliput/base/phased", "C04"),
 ("src/maliput/base/rule_filter.cc", "C05"), ("src/maliput/base/rule_registry.cc", "C05"), ("src/maliput/base/rule_tools.cc", "C05"), ("src/maliput/base/traffic_light_book.cc", "C24"),
 ("src/maliput/base/", "C18"),
 ("src/maliput/geometry_base/kd", "C10"), ("src/maliput/geometry_base/brute", "C10"), ("src/maliput/geometry_base/strategy", "C10"), ("src/maliput/geometry_base/filter", "C10"),
 ("src/maliput/geometry_base/", "C08 C10"), ("include/maliput/geometry_base/", "C08 C29"), ("include/maliput/api/regions.h", "C06"), ("include/maliput/api/lane_data.h", "C29 C09 C23"),
 ("src/maliput/plugin/", "C26"),
 ("src/maliput/routing/graph/", "C15"), ("src/maliput/routing/find_lane", "C14"), ("src/maliput/routing/derive", "C14"), ("src/maliput/routing/compare", "C29"), ("src/maliput/routing/routing_constraints", "C16"), ("src/maliput/routing/", "C17"),
 ("src/maliput/utility/file_utils", "C25"), ("src/maliput/utility/generate_dot", "C21"), ("src/maliput/utility/generate_string", "C21"), ("src/maliput/utility/string_format", "C21"), ("src/maliput/utility/segment", "C21"),
 ("src/maliput/utility/generate_", "C20"), ("src/maliput/utility/mesh", "C19 C20"), ("src/maliput/utility/thread_pool", "C01"),
]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"s0\(\)", "s1()"), (r"s1\(\)", "s0()"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"kStart\b", "kFinish"), (r"kFinish\b", "kStart"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"),
       (r"\+\+i\b", "i += 2"), (r" = 0;", " = 1;"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\(!", "("), (r"if \(", "if (!("), (r" % ", " / "), (r"\.r\(\)", ".h()"), (r"\.s\(\)", ".r()"), (r"\bx\(\)", "y()"), (r"\bz\(\)", "y()"), (r"left\b", "right"), (r"to_left", "to_right")]

def code_lines(s):
    out, block = [], False
    for i, l in enumerate(s.split("\n")):
        t = l.strip()
        if block:
            if "*/" in t: block = False
            continue
        if t.startswith("/*"):
            block = "*/" not in t; continue
        if not t or t.startswith(("//", "#", "*", "namespace", "using ")): continue
        if "log()->" in t or "DRAKE_LOGGER" in t: continue
        out.append(i)
    return out

def mutants(path, rng):
    s = open("/repo/" + path).read(); L = s.split("\n"); r = []
    for i in code_lines(s):
        l = L[i]; code = l.split("//")[0]
        instr = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), code)
        for a, b in OPS:
            for m in re.finditer(a, instr):
                if a == r"if \(":
                    e = code.rstrip()
                    if not e.endswith(") {"): continue
                    n = code[:m.start()] + "if (!(" + e[m.end():-3] + ")) {"
                else:
                    n = code[:m.start()] + b + code[m.end():]
                r.append((i, n))
        t = code.strip()
        if re.match(r"^(\w[\w\.\->\*\[\]\(\)]*\(.*\);|[\w\.\->\[\]\(\)]+ ?[\+\-]?= .*;|MALIPUT_\w+\(.*\);|continue;|break;|throw .*;|return;)$", t) and not re.match(r"^(return|const|auto|static|double|int|bool)\b", t):
            r.append((i, ""))
            if t.startswith("MALIPUT_THROW"): r.append((i, ""))
    # What differs for the checks only.
    rng.shuffle(r)
    res = []
    for i, n in r:
        if len(res) >= PER: break
        res.append((path, i, L[i], n))
    return res

def files():
    out = subprocess.run("cd /repo && git ls-files src include", shell=True, capture_output=True, text=True).stdout.split()
    r = []
    for f in out:
        if not f.endswith((".cc", ".h")) or "test_utilities" in f: continue
        if ONLY and not any(o in f for o in ONLY): continue
        for k, p in MAP:
            if f.startswith(k):
                r.append((f, p.split())); break
    return r

todo = queue.Queue(); total = 0
allm = []
for f, pids in files():
    for m in mutants(f, random.Random("%d %s" % (SEED, f))): allm.append((pids, m))
random.Random(SEED).shuffle(allm)
for m in allm: todo.put(m)
total = len(allm)
print(total, "mutants", flush=True)
lock = threading.Lock(); stat = {}
def work(w):
    base = "/tmp/camp-%d-%d" % (os.getpid(), w)
    os.makedirs(base + "/repo")
    subprocess.run("cp -a /repo/include /repo/src /repo/resources %s/repo/ 2>/dev/null" % base, shell=True)
    while True:
        try: pids, (path, i, old, new) = todo.get_nowait()
        except queue.Empty: break
        f = base + "/repo/" + path
        s = open(f).read(); L = s.split("\n")
        L[i] = new; open(f, "w").write("\n".join(L))
        verdict, by = "SURVIVED", ""
        t0 = time.time()
        for pid in pids:
            env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_BUILD=base + "/build", VERIF_OUT=base, VERIF_SEED="1")
            if pid != "C21": env["VERIF_FIRST"] = "1"
            try:
                r = subprocess.run("ulimit -v 12000000; exec timeout 650 python3 %s/tools/run.py %s --jobs 2" % (V, pid), shell=True, env=env, capture_output=True, text=True, errors="replace")
            except Exception as e:
                verdict = "ERROR %s" % e; break
            if "BUILD-FAILED" in r.stdout: verdict = "NOBUILD"; break
            if "VIOLATION" in r.stdout: verdict, by = "killed", pid; break
            if r.returncode != 0: verdict = "RC%d" % r.returncode; by = pid
            elif "exhaustive=False" in r.stdout: verdict = "INCOMPLETE"; by = pid
        open(f, "w").write(s)
        with lock:
            stat[verdict] = stat.get(verdict, 0) + 1
            with open(OUT, "a") as o:
                o.write("%s %s %s:%d %.0fs\n   - %s\n   + %s\n" % (verdict, by or ",".join(pids), path, i + 1, time.time() - t0, old.strip(), new.strip()))
            if sum(stat.values()) % 20 == 0: print(sum(stat.values()), total, stat, flush=True)
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(WORKERS)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", stat)
