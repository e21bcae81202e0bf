#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claimed list below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
claimed = json.load(open(os.path.join(root, "tools", "claimed.json")))
na = claimed["not_applicable"]
checks = []
for i in ids:
    if i in claimed["checks"]:
        c = claimed["checks"][i]
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i,
            "thorough_cmd": "bash run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", claimed["technique"]),
            "level": "other", "level_note": c["note"] + " " + claimed["trust"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks in /repo; stand-ins are applied in an overlay built by the checks", "source_commits": []},
     "not_applicable": [{"property": i, "reason": na.get(i, "Check not built yet.")} for i in ids if i not in claimed["checks"]],
     "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
