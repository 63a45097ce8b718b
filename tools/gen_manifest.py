#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in btsim/props and the list of properties."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C90": "pure value conversion without time, I/O, concurrency or several parties: there is no schedule or fault for a simulation to vary",
    "C91": "pure arithmetic over child bounds without time, I/O, concurrency or several parties: there is no schedule or fault to vary",
    "C92": "pure text-to-message conversion without time, I/O (beyond one read, covered by C12), concurrency or several parties",
    "C93": "pure computation of single nodes without time, I/O, concurrency or several parties: there is no schedule or fault to vary",
}
props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/btsim/props/{i.lower()}.py"):
        checks.append(dict(
            property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique="deterministic simulation with fault injection: seeded search over schedules, pre-emptions and faults of the real code under a simulated ROS, clock, scheduler and disk",
            level="exploration",
            level_note="seeded random search over simulated executions of the real code; every failure is replayable from a file"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
