#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/properties.py and tools/checks.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import PROPS, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "tools", "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/check --setup", "checks": [], "not_applicable": []}
if HOOKS:
    m["hooks"] = HOOKS
for p in PROPS:
    if p["id"] in checks:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 /verif/check " + p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check " + p["id"],
                            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p.get("na", "no monitor built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
