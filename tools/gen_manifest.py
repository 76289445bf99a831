#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl. Run from /verif."""
import json, re, glob

NA = {
    "C23": "The property is a pure function of its input (no task, clock, message, I/O or randomness outside of the caller's arguments): there is no schedule or fault for a simulator to choose, so deterministic simulation decides nothing here.",
    "C24": "Pure sequential data structure code: no concurrency, time, I/O or fault for the property to depend on, so there is nothing for deterministic simulation to schedule or inject.",
}
built = set()
for f in glob.glob("sim/harness/*.go"):
    built |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": "bin/check " + i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, timings and faults of the real code under a simulator which orders all shared memory accesses by vector clocks" if i == "C31" else "deterministic simulation with fault injection: seeded search over schedules, timings and faults of the real code under a simulator, against a reference model",
            "level": "exploration",
            "level_note": "Seeded random search: holds on every simulated run explored, not for all schedules and inputs; preemption at statement granularity, sequentially consistent memory.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
