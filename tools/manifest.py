#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from tools/checks.txt, tools/techniques.json and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
crates = dict(l.split()[:2] for l in open(f"{V}/tools/checks.txt") if l.strip())
tech = json.load(open(f"{V}/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in crates:
        t = tech["checks"].get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": t.get("technique", "property-based testing"),
            "level": t.get("level", "exploration"),
            "level_note": t.get("note", "generated inputs against an independent oracle; bounds in DESIGN.md"),
        })
    else:
        na.append({"property": i, "reason": tech["not_applicable"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": tech["hooks"], "checks": checks, "not_applicable": na}
if not m["hooks"]:
    del m["hooks"]
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks", len(na), "not applicable")
