import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import registry
PY = "python3"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = registry.CHECKS.get(i)
    if not s:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no sound check built yet")}); continue
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
        "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument an out-of-tree build of /repo's current sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na])
