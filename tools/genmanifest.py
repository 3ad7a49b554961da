#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
C = json.load(open(f"{V}/tools/claims.json"))
m = {"version": 1, "setup_cmd": "bash /verif/engine/build.sh", "checks": [], "not_applicable": [], "notes": C.get("notes", "")}
for p in props:
    if p in C["claims"]:
        c = C["claims"][p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 /verif/check.py {p} quick", "thorough_cmd": f"python3 /verif/check.py {p} thorough",
                            "technique": c["technique"], "level": c.get("level", "other"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": C["na"].get(p, "Not claimed yet: the analysis that decides it is being built.")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for l in open(f"{V}/properties.jsonl"):
    jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
print("ok", len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
