#!/usr/bin/env python3
"""Writes known_findings.json: recorded (unrepaired) findings and the list of repaired ones."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [json.load(open(f"{V}/findings/{f}")) for f in sorted(os.listdir(f"{V}/findings")) if f.endswith(".json")]
PROP = json.load(open(f"{V}/tools/fixed.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    d = PROP.get(s[5:])
    if d is None:
        print("no entry for", s)
        continue
    fixed.append(f"fixed: property={d[0]} {h} {d[1]}")
json.dump(dict(findings=F, fixed=fixed), open(f"{V}/known_findings.json", "w"), indent=1, ensure_ascii=False)
print(len(F), "findings,", len(fixed), "fixed")
