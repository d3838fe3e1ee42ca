"""Regenerates MANIFEST.json from the table below (python3 tool/mkmanifest.py)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = json.load(open(os.path.join(H, "tool", "checks.json")))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))}
checks, na = [], []
for pid in sorted(props):
    if os.path.exists(os.path.join(H, "checks", pid + ".py")):
        t = CH[pid]
        checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid,
                       "thorough_cmd": "python3 check.py %s --thorough" % pid,
                       "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": pid, "reason": CH[pid]["na"]})
json.dump({"version": 1, "setup_cmd": "python3 -m sa.facts", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
