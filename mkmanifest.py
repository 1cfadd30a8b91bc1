#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T_SIM = "TLA+ specification checked with TLC; client programs generated from it run on the real MPI backend under a controlled scheduler, and TLC validates every recorded history against the specification"
T_REAL = "TLA+ specification checked with TLC; programs generated from it run on the real backends and TLC validates the recorded histories"
N_SIM = ("Every explored history of the unmodified implementation (real processes and Python code over a simulated MPI that controls message timing, eager/rendezvous sends, "
         "clock, hosts, garbage collection and shared-memory preemption) is a behaviour of the TLA+ specification, which itself is model checked exhaustively at small bounds. "
         "Bounded: sampled programs and schedules, not all. Trusts the MPI simulator and the recording driver.")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "check.py --replay FILE re-executes a reported violation. KNOWN_FINDINGS.txt lists genuine defects (known and fixed)."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", T_SIM), "level": "model_checking",
                            "level_note": c.get("note", N_SIM)})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
