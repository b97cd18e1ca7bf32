#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
na = json.load(open(f"{V}/tools/not_applicable.json"))
notes = open(f"{V}/tools/notes.txt").read().strip() if os.path.exists(f"{V}/tools/notes.txt") else ""
hooks = json.load(open(f"{V}/tools/hooks.json"))
m = {"version": 1, "setup_cmd": "python3 /verif/lib/build.py asan && python3 /verif/lib/build.py tsan",
     "hooks": hooks, "checks": [], "not_applicable": [], "notes": notes}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 /verif/check.py {i}", "thorough_cmd": f"python3 /verif/check.py {i} --tier thorough",
                            "evidence_file": f"/verif/evidence/{i}.json", "technique": c.get("technique", "runtime monitoring"), "level": c["level"], "level_note": c.get("note", c["rule"])})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
