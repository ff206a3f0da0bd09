#!/usr/bin/env python3
"""DESIGN.md = doc/design.md with the table of planted bugs (and what was seen of them: tools/caught.json)"""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(V, "tools/caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded/*"))):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(i, "not run")))
n = sum(1 for f in glob.glob(os.path.join(V, "tools/neutral/*.py")) for x in re.findall(r'^neutral\("', open(f).read(), re.M))
c = "| bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
t = open(os.path.join(V, "doc/design.md")).read().replace("@CATCHES@", "%d bugs.\n\n%s" % (len(rows), c)).replace("@NNEUTRAL@", str(n))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
