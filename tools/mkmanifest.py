#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import LEVELS, NOTES, NOT_APPLICABLE, PLAN  # noqa: E402

ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks = []
for p in PLAN:
    tech, note = NOTES[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 vp.py check " + p,
        "thorough_cmd": "python3 vp.py check " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "property-based testing: " + tech,
        "level": LEVELS.get(p, "exploration"),
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 vp.py setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")}
                       for p in ids if p not in PLAN],
    "notes": "No hooks in /repo: its sources are compiled unmodified with the stand-ins, the scheduler "
             "and the harness of /verif. See DESIGN.md.",
}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
