#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from props import PROPS
from meta import META
with open(V + "/properties.jsonl", "w") as f:
    for pid in sorted(META):
        m = META[pid]
        f.write(json.dumps({"id": pid, "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["for_all"]}, "why_tests_cant": m["why"],
            "anchors": {"files": m["files"], "mechanism": [{"name": n, "where": w} for n, w in m["mech"]],
                        "observe_at": m.get("observe", []), "hook_needed": None}}) + "\n")
checks, na = [], []
for pid in sorted(META):
    m = META[pid]
    if pid in PROPS:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
            "technique": m.get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the Go code and recorded executions validated by TLC"),
            "level": "model_checking", "level_note": m["level_note"]})
    else:
        na.append({"property": pid, "reason": m.get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "verif", "enable": "no hooks were needed: every check uses the public API only", "source_commits": []},
    "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
