#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
from meta import M
from checks import PROPS
root = os.path.dirname(HERE)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for i in sorted(M):
        m = M[i]
        assert len(m["title"]) <= 80, i
        f.write(json.dumps({"id": i, "title": m["title"], "statement": m["statement"],
                            "quantifier": {"over": m["over"], "text": m["qtext"]}, "why_tests_cant": m["why"],
                            "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]],
                                        **({"state": m["state"]} if m["state"] else {}),
                                        **({"observe_at": m["observe"]} if m["observe"] else {}), "hook_needed": None}}) + "\n")
checks = []
for i in sorted(PROPS):
    m = M[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": m["technique"], "level": "exploration", "level_note": m["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --self-test", "checks": checks,
           "not_applicable": [], "notes": "No hooks in /repo are needed: all monitors observe through public interfaces; sanitizers instrument the sources of the working tree. See DESIGN.md."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
