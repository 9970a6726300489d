"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if os.path.exists(os.path.join(here, "pbt", "props", i + ".py")) and i in TECH:
        checks.append({"property": i, "quick_cmd": "bash run.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "exploration", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check is generated-input search (Hypothesis) against an explicit oracle; see DESIGN.md. No hooks are needed in /repo."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
