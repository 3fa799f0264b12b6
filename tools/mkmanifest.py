#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
NOTE = ("TLC checks the property on the specification exhaustively within small constants, and decides for every "
        "recorded execution of the real program (compiled unmodified against a simulated network, clock and scheduler) "
        "whether it is a behaviour of the specification. The executions are a seeded sample of inputs and schedules, so "
        "violations outside them are missed. Trusted: the specification, TLC, the shims in harness/.")
checks = [{"property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
           "evidence_file": "evidence/%s.json" % p,
           "technique": "TLA+ specification checked with TLC; trace validation of recorded executions of the real broker against it",
           "level": PLAN[p]["level"], "level_note": NOTE} for p in sorted(PLAN)]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: /repo/src/main.rs is compiled as it is against shims of tokio and tokio-util in /verif/harness."}
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
