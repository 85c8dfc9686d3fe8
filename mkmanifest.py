#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("TLC explores every reachable state of the bounded models of the TLA+ specification (invariants stating the property), and "
        "validates every step of executions of the real daemon (compiled from /repo, run against a simulated D-Bus, clock and file system) "
        "against the same specification; the executions are drawn from the specification, from seeded generators and from directed scenarios. "
        "Assurance: the property holds in all model states and on all executed histories. Trusted: the simulation of D-Bus, clock and files in sim/, "
        "TLC, and exact arithmetic on a 1/1024 grid (values off the grid are compared as unknown).")
checks = []
for p in props:
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "TLA+ specification model-checked with TLC; trace validation of the real daemon against it",
                   "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. The specification is in spec/, the simulator in sim/, generators and drivers in harness/."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
