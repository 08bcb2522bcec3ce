#!/usr/bin/env python3
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda n: open(os.path.join(V, "design", n)).read().strip()
s = R("head.md")
for k in ("props", "known", "false", "seeded"):
    s = s.replace("@@%s@@" % k.upper(), R(k + ".md"))
import json
J = json.load(open(os.path.join(V, "design", "seeded.json")))
rows = ["| %s | %s | %s (needs: %s) | %s |" % (k, v["property"], v["breaks"], v["needs"], v["result"])
        for k, v in sorted(J.items()) if os.path.isdir(os.path.join(V, "seeded", k))]
s = s.replace("@@SEEDEDTABLE@@", "\n".join(["| change | property | breaks | quick check, seed 1 |", "|---|---|---|---|"] + rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s + "\n")
