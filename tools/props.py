#!/usr/bin/env python3
"""Single source of the claimed properties: writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, quant, why, files, state, mech, observe, level_note, technique=None, hook=None,
         na=None):
    assert len(title) <= 80, title
    P.append({
        "id": pid, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(quant.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe,
                    "hook_needed": hook},
    })
    if na:
        NA.append({"property": pid, "reason": na})
    else:
        P[-1]["_check"] = {"level_note": " ".join(level_note.split()),
                           "technique": technique or "explicit-state model checking of the implementation: exhaustive "
                           "bounded enumeration of histories/inputs, each executed on the real code in lockstep with a "
                           "reference model"}


exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 tools/run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 tools/run.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["_check"]["technique"],
            "level": "model_checking",
            "level_note": p["_check"]["level_note"],
        } for p in P if "_check" in p],
        "not_applicable": NA,
        "notes": "No hooks were needed in /repo: the scheduler of C01 interposes pthread/futex calls and uses the "
                 "compiler's -fsanitize=thread instrumentation with a runtime of its own. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
