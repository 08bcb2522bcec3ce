#!/usr/bin/env python3
"""The committed list of findings: edit here, run once; checks only read known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = json.load(open(os.path.join(V, "tools", "known_list.json")))
FIXPROP = json.load(open(os.path.join(V, "tools", "fix_props.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split("|", 1)
    if s.startswith("fix: "):
        w = s[5:]
        prop = [p for p, ws in FIXPROP.items() if any(w.startswith(x) for x in ws)]
        assert len(prop) == 1, (w, prop)
        fixed.append("fixed: property=%s %s %s" % (prop[0], h, w))
json.dump({"findings": [dict(k, status="known") for k in KNOWN], "fixed": fixed},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(KNOWN), "known", len(fixed), "fixed")
