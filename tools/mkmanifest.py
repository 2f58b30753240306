#!/usr/bin/env python3
"""Write MANIFEST.json from claims.py and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        cmd, tech, level, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 " + cmd + " --quick", thorough_cmd="python3 " + cmd + " --thorough",
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet: specification under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na, notes=NOTES)
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
