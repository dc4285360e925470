"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
NOTE = ("The TLA+ specification is model checked in a bounded scope; the code is bound to it by trace validation of executions "
        "generated from the specification and at random (bounded number and size), so a violation needs an execution that shows it.")
checks = []
for p in sorted(PLAN):
    checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "TLA+ specification model checked with TLC; conformance of the code by trace validation with TLC",
                   "level": "model_checking", "level_note": PLAN[p].get("note", NOTE)})
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
na = [{"property": i, "reason": "no check yet"} for i in ids if i not in PLAN]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
