#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of programs that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(here, "tools", "levels.py")).read())
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if os.path.exists(os.path.join(here, "harness/src/bin", i.lower() + ".rs")) and i in NOTE:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Every check builds harness/src/bin/<id>.rs against /repo's working tree; quick uses the build with overflow checks, thorough that and the release build. No hooks in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
