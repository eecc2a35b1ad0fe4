#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import meta
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in meta.P.values():
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": list(dict.fromkeys(p["files"])), "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        for g in p["files"]:
            assert os.path.exists("/repo/" + g), g
checks, na = [], []
for id, p in meta.P.items():
    c = p["check"]
    if not c["harness"]:
        na.append({"property": id, "reason": c.get("why_na", "no check built yet")})
        continue
    checks.append({"property": id, "quick_cmd": "python3 tools/check.py %s quick" % id, "thorough_cmd": "python3 tools/check.py %s thorough" % id,
                   "evidence_file": "evidence/%s.json" % id, "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the harnesses build /repo's sources themselves (tools/build.py) with sanitizers."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
