#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402
import manifest_data as M  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.WHERE:
        t, note = M.CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other",
                       "level_note": note + " " + M.TRUST})
    else:
        na.append({"property": i, "reason": M.DECLINED.get(i, "not built yet")})
doc = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)' && clang --version >/dev/null",
       "checks": checks, "not_applicable": na,
       "notes": "Static analysis only: nothing of /repo is executed by a check. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
