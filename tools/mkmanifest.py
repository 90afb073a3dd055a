#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(root, "tools/claimed.txt")).read().split()
NA = {
 "C21": "pure data structure: no schedule, clock, fault or I/O to simulate",
 "C22": "pure function of its inputs: no schedule, clock, fault or I/O to simulate",
 "C23": "pure functions of their inputs: no schedule, clock, fault or I/O to simulate",
 "C24": "cfg(windows) code cannot be compiled or run in this sandbox (no Windows target std, no console API)",
}
NOTE = "Seeded search over schedules, faults, signals, arrivals and inputs on the real crate under a simulated kernel; sampling, not exhaustion: a violation that needs a run the search did not draw is missed. Preemption and signals strike at the control-flow edges of mortal and at its system calls; memory is sequentially consistent."
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
            "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
