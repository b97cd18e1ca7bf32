#!/usr/bin/env python3
"""Writes known_findings.json (committed; never written by checks)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
byname = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
FIXED = json.load(open(f"{V}/tools/fixed.json"))      # [[property, subject, what failed], ...]
FINDINGS = json.load(open(f"{V}/tools/findings.json"))
out = {"findings": FINDINGS, "fixed": []}
for prop, subject, what in FIXED:
    m = [h for s, h in byname.items() if s.startswith("fix: " + subject)]
    assert len(m) == 1, subject
    out["fixed"].append(f"fixed: property={prop} {m[0]} {what}")
json.dump(out, open(f"{V}/known_findings.json", "w"), indent=1)
print(len(out["findings"]), "findings,", len(out["fixed"]), "fixed")
