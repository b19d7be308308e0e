#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOTES
checks = []
for pid in sorted(CHECKS):
    tech, note = NOTES[pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "technique": tech, "level": CHECKS[pid]["level"], "level_note": note})
na = []
with open(os.path.join(V, "properties.jsonl")) as f:
    ids = [json.loads(l)["id"] for l in f if l.strip()]
for i in ids:
    if i not in CHECKS:
        na.append({"property": i, "reason": "the check is still under construction"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor observes through the public interface, the streams, the file system and the sanitizers."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
