#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --quick" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search, replayable minimised traces)",
            "level": "exploration",
            "level_note": PROPS[i].get("note", "Seeded search over simulated runs of the real code; a clean batch is evidence for the schedules, faults and inputs explored, not a proof. Trusts the simulator's models of threads, memory, clock and operating system.")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the compiler ABI (ThreadSanitizer call-outs) and the C library, interposed by /verif/sim."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
