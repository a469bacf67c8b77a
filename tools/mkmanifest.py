#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        sc = sorted(set(s for s, _, _ in CHECKS[i]["plan"]))
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py check %s --tier=quick" % i,
            "thorough_cmd": "python3 run.py check %s --tier=thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults; scenarios: %s)" % ", ".join(sc),
            "level": "exploration",
            "level_note": CHECKS[i].get("note", "Seeded search, no exhaustiveness; sequentially consistent interleavings at memory-access granularity; "
                          "simulated heap, mmap and threads; real library code. Every violation is replayed exactly and minimised before it is reported."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: check under construction")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator's seams are the compiler's thread-sanitizer instrumentation callbacks and symbol "
              "redirection of libc calls in the library objects, both applied by /verif's own build of /repo's sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
