#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import checks
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check not built yet")})
m["notes"] = ("run.py ID builds the property's instrumented programs from /repo's working tree in a scratch "
              "directory, runs them and judges what the monitors observed; run.py --replay FILE re-runs one "
              "violating case. No hooks in /repo are needed: the library is header-only and every monitor sits "
              "in the user-supplied types, memory, iterators, mutexes and allocators it is instantiated with.")
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
