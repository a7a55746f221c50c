"""Write MANIFEST.json from the list of finished checks (run by hand)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(HERE, "mc", "notes.py")).read(), NOTES)
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES["CHECKS"]:
        tech, level, note = NOTES["CHECKS"][i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick",
                       "thorough_cmd": f"./check {i} thorough", "technique": tech,
                       "level": level, "level_note": note,
                       "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NOTES["NOT"].get(i, "check still being built")})
m = {"version": 1, "setup_cmd": NOTES["SETUP"], "checks": checks, "not_applicable": na,
     "notes": NOTES["TEXT"]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
