#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    c = config.CHECKS.get(p)
    if c:
        checks.append({
            "property": p,
            "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"],
            "level": "exploration",
            "level_note": ("Seeded sampling of schedules, faults and inputs of the real code under a simulator, no exhaustiveness. " + c.get("note", "")).strip(),
        })
    else:
        na.append({"property": p, "reason": config.NOT_APPLICABLE.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build-all", "checks": checks, "not_applicable": na}
if getattr(config, "HOOKS", None):
    m["hooks"] = config.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
