#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from the files of seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    rows.append("| %s | %s | %s | %s | %s quick |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
p = V + "/DESIGN.md"; t = open(p).read()
t = re.sub(r"(<!-- seeds -->\n).*(<!-- end -->)", lambda g: g.group(1) + "\n".join(rows) + "\n" + g.group(2), t, flags=re.S)
open(p, "w").write(t)
