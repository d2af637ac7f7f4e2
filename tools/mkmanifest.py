#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py."""
import json
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, TOP)
from checks import CHECKS  # noqa: E402

checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py check %s" % pid,
        "thorough_cmd": "python3 run.py check %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks compile the current /repo/src/main tree together with a generated-input harness; see DESIGN.md.",
}
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
