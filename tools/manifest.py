#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))}
NOTE = "Seeded search over schedules, faults and random outcomes of the real code under a whole-process simulator; samples, does not enumerate."
TECH = {
 "C03": "deterministic simulation: clock faults and schedules, cadence oracle over the recorded history",
 "C04": "deterministic simulation: clock faults and schedules, bracketing oracle over the recorded history",
 "C05": "deterministic simulation: abort injected at any step, history checked",
 "C06": "deterministic simulation: receiver loss injected at any step, history checked",
 "C08": "deterministic simulation: thread-creation failures injected, live threads counted",
 "C19": "deterministic simulation: repeated and long executions under faults, every allocation counted",
 "C20": "deterministic simulation: workers made to stand still at seeded draws until nobody else can run, history checked",
 "C12": "deterministic simulation: I/O faults injected at opens and reads",
}
CLAIMED = sys.argv[1:] or sorted(props)
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none (no hook in /repo; the seams are libc symbols, the patched fastrand and compiler coverage callbacks in /verif/sim)", "enable": "RUSTC_WRAPPER=/verif/sim/wrap.sh cargo build (see build.sh)", "source_commits": []},
 "checks": [],
 "not_applicable": [],
}
for i in sorted(props):
    if i in CLAIMED:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "deterministic simulation with seeded schedules and fault injection, oracle: executable reference model"),
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
