#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}   # id -> (level, technique, note)
try:
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    from claims import CLAIMED
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
 "N01": "pure function of the settings value: no schedule, clock, fault or history for a simulation to decide",
 "N02": "pure function of items and arguments; the interrupted and concurrent variants are covered by C12-C14",
 "N03": "pure validation of one value: nothing a simulator controls can influence it",
 "N04": "pure comparison of installed version strings: nothing a simulator controls can influence it",
}
PY = "/opt/venv/bin/python"
m = {"version": 1,
     "setup_cmd": f"{PY} /verif/check.py selftest --quick" if CLAIMED else "true",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: all seams are standard-library modules replaced by the simulator before hyperpack is imported", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        level, tech, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"{PY} /verif/check.py run {i} --tier quick",
            "thorough_cmd": f"{PY} /verif/check.py run {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
