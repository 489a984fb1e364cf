"""Writes MANIFEST.json from properties.jsonl and the table below: python3 tools/mkmanifest.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
INFO = json.load(open(ROOT + "/tools/checks.json"))
checks, na = [], []
for p in props:
    if p in INFO["checks"]:
        c = INFO["checks"][p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": c["technique"], "level": c.get("level", "model_checking"),
                       "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": INFO["not_applicable"].get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "One driver (check.py) per property: TLC on the TLA+ specification in spec/, harness in harness/ built "
              "against /repo's working tree, replay and comparison in checks/. Known findings: known_findings.txt."}
if INFO.get("hooks"):
    m["hooks"] = INFO["hooks"]
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
