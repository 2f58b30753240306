#!/usr/bin/env python3
"""Write known-findings.json.  Only entries with status "open" silence anything."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(prop, commit, what, fp):
    F.append(dict(property=prop, fingerprint=fp, status="fixed", what="fixed: property=%s %s %s" % (prop, commit, what)))
def known(prop, fp, what):
    F.append(dict(property=prop, fingerprint=fp, status="open", what=what))
exec(open(os.path.join(V, "tools", "findings.py")).read())
json.dump(dict(findings=F), open(os.path.join(V, "known-findings.json"), "w"), indent=1)
print(len(F), "findings")
