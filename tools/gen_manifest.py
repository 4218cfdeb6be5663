"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py (run by hand, not by checks)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "props.py")).read(), ns)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in ns["PROPS"]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in ns["PROPS"]:
    if p["id"] in ns["NOT_APPLICABLE"]:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                   "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p.get("technique", "property-based testing: " + p["oracle"]),
                   "level": "exploration",
                   "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in ns["NOT_APPLICABLE"].items()]}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(ns["PROPS"]), "properties,", len(checks), "checks")
