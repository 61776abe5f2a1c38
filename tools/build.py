"""Builds harness binaries from /repo's current working tree.

Content addressed: an object is reused only when its flags, its source and every header it was built from have the
same *contents* as when it was built, so neither mtimes nor leftovers of another tree can make a check see stale code.
"""
import hashlib
import json
import os
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++"

BASE_FLAGS = ["-std=c++17", "-O1", "-g0", "-fPIC", "-pthread", "-D_GLIBCXX_ASSERTIONS", "-w"]
INCLUDES = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/lib", "-I" + VERIF + "/harness",
            "-isystem", "/usr/include/eigen3"]

_hash_cache = {}
_lock = threading.Lock()


def file_hash(path):
    with _lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hash_cache[path] = h
    return h


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode())
        h.update(b"\0")
    return h.hexdigest()


def parse_deps(path):
    with open(path) as f:
        text = f.read().replace("\\\n", " ")
    return [d for d in text.split(":", 1)[1].split() if not d.startswith("/usr/")]


def tree_listing():
    """Names of all headers: adding or removing one may change what an #include finds."""
    names = []
    for root in ("/include", "/src"):
        for d, _, files in os.walk(REPO + root):
            names += [os.path.join(d, f)[len(REPO):] for f in files if f.endswith((".h", ".hpp"))]
    return sha(*sorted(names))


_listing = None


def compile_one(src, flags):
    """Returns the path of an up-to-date object for `src`."""
    global _listing
    with _lock:
        if _listing is None:
            _listing = tree_listing()
    cmd_key = sha(_listing, src, REPO, *flags)
    stem = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + cmd_key[:16])
    meta = stem + ".json"
    obj = stem + ".o"
    if os.path.exists(meta) and os.path.exists(obj):
        with open(meta) as f:
            m = json.load(f)
        if all(file_hash(d) == h for d, h in m["deps"].items()):
            return obj, m["key"]
    tmp = stem + ".tmp%d" % os.getpid()
    r = subprocess.run([CXX] + flags + INCLUDES + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    deps = {d: file_hash(d) for d in sorted(set(parse_deps(tmp + ".d")))}
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    key = sha(cmd_key, *[a + b for a, b in sorted(deps.items())])
    with open(meta + ".tmp", "w") as f:
        json.dump({"deps": deps, "key": key}, f)
    os.replace(meta + ".tmp", meta)
    return obj, key


def lib_sources(components):
    r = []
    for c in components:
        top = REPO + "/src/maliput/" + c
        for d, _, files in os.walk(top):
            r += [os.path.join(d, f) for f in files if f.endswith(".cc") and not f.endswith("_test.cc")]
    return sorted(r)


def build(name, sources, components, extra_flags=(), libs=(), per_file_flags=None, exclude=(), shared=False, jobs=8):
    """Links VERIF/build/bin/<name> from harness sources and the repository's components."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    flags = BASE_FLAGS + list(extra_flags)
    # Harness sources first: they take longest to compile.
    todo = [(s if s.startswith("/") else os.path.join(VERIF, s)) for s in sources]
    lib = [s for s in lib_sources(components) if not any(s.endswith(e) for e in exclude)]
    per_file_flags = per_file_flags or {}

    def flags_for(s):
        for suffix, fl in per_file_flags.items():
            if s.endswith(suffix):
                return flags + fl
        return flags

    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda s: compile_one(s, flags_for(s)), todo + lib))
    objs = [r[0] for r in res]
    h_objs, l_objs = objs[:len(todo)], objs[len(todo):]
    key = sha(name, json.dumps(list(libs)), *[r[1] for r in res], *flags)
    out = os.path.join(BUILD, "bin", name + (".so" if shared else ""))
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    # Through an archive, so that only what is referenced is linked.
    arch = out + ".a"
    if os.path.exists(arch):
        os.unlink(arch)
    if l_objs:
        subprocess.run(["ar", "rcs", arch] + l_objs, check=True)
    cmd = [CXX] + [f for f in flags if f.startswith(("-f", "-O", "-pthread"))] + (["-shared"] if shared else ["-rdynamic"]) + \
        h_objs + ([arch] if l_objs else []) + ["-o", out] + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if os.path.exists(arch):
        os.unlink(arch)
    if r.returncode != 0:
        raise RuntimeError("linking %s failed:\n%s" % (name, r.stdout[-6000:]))
    with open(stamp, "w") as f:
        f.write(key)
    return out
