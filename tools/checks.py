"""The registered checks: how each harness binary is built."""
COMMON = ["common"]
API = ["common", "math", "api"]
BASE = API + ["base", "routing"]
GEO = API + ["geometry_base"]
UTIL = API + ["utility"]
YAML = ["-lyaml-cpp"]
FS = ["-lstdc++fs"]

CHECKS = {}


def check(pid, **kw):
    kw.setdefault("sources", ["lib/mc.cc", "harness/%s.cc" % pid.lower()])
    kw.setdefault("libs", [])
    CHECKS[pid] = kw


check("C06", components=GEO)
check("C02", components=BASE)
check("C03", components=BASE)
check("C04", components=GEO + ["base"])
check("C01", sources=["harness/c01.cc", "lib/mcsched.cc", "lib/mc.cc"], components=["common", "utility"],
      exclude=["file_tools.cc", "generate_obj.cc", "generate_urdf.cc", "mesh.cc", "mesh_simplification.cc", "generate_string.cc"],
      per_file_flags={"thread_pool.cc": ["-fsanitize=thread"], "c01.cc": ["-fsanitize=thread"]}, libs=["-ldl"])
check("C05", components=BASE)
check("C07", components=GEO + ["base"])
check("C08", components=GEO)
check("C09", components=GEO + ["base"])
check("C10", components=GEO)
check("C11", components=["common", "math"])
check("C12", components=["common", "math"])
check("C13", components=GEO)
check("C14", components=GEO + ["routing"])
check("C15", components=GEO + ["base", "routing"])
check("C16", components=GEO + ["base", "routing"])
check("C17", components=GEO + ["base", "routing"])
check("C18", components=GEO + ["base", "routing"], libs=YAML)
check("C19", components=UTIL)
check("C20", components=GEO + ["utility"])
check("C21", components=GEO + ["base", "routing", "utility"])
check("C22", components=API)
check("C23", components=UTIL + ["geometry_base"])
check("C24", components=BASE)
check("C25", components=["common", "utility"],
      exclude=["generate_dot.cc", "generate_obj.cc", "generate_urdf.cc", "generate_string.cc", "mesh_simplification.cc", "segment_analysis.cc", "thread_pool.cc"], libs=FS)


def plugin(name, *defines):
    return dict(name="plug_" + name, sources=["harness/plugin_lib.cc"], components=[], shared=True,
                extra_flags=['-DPLUG_TAG="plug_%s"' % name] + list(defines))


check("C26", components=GEO + ["base", "routing", "plugin", "utility"],
      exclude=["generate_dot.cc", "generate_obj.cc", "generate_urdf.cc", "generate_string.cc", "mesh_simplification.cc", "segment_analysis.cc", "thread_pool.cc"],
      libs=["-ldl"] + YAML + FS,
      extra=[plugin("a1", '-DPLUG_ID="a"', "-DPLUG_WHOLE"), plugin("a2", '-DPLUG_ID="a"', "-DPLUG_WHOLE"), plugin("b", '-DPLUG_ID="b"', "-DPLUG_WHOLE"),
             plugin("typed", '-DPLUG_ID="typed"', "-DPLUG_TYPE=7", "-DPLUG_ENTRY"), plugin("bare", '-DPLUG_ID="bare"', "-DPLUG_TYPE=0"),
             plugin("noid", "-DPLUG_TYPE=0", "-DPLUG_ENTRY"), plugin("notype", '-DPLUG_ID="notype"', "-DPLUG_ENTRY"),
             plugin("empty", '-DPLUG_ID=""', "-DPLUG_WHOLE")])
check("C27", components=["common", "math"], libs=FS)
check("C28", components=["common", "math", "drake"], libs=["-ldl"])
check("C30", components=["common", "math", "drake"], libs=["-ldl"])
check("C31", components=["common", "math", "drake"], libs=["-ldl"])
check("C29", components=GEO + ["base", "routing"])
