#!/usr/bin/env python3
"""MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = {}
exec(open(os.path.join(root, "tools", "checks_meta.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "harness", "checks", i + ".py")) and i in META:
        tech, level, note = META[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks,
           "hooks": {"guard": "HACHOIR_VERIF", "enable": "no hook is needed: the public API exposes the abstract state", "source_commits": []},
           "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
