#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), m["property"]))
a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
p = V + "/DESIGN.md"
s = open(p).read()
t = a + "\n| bug | manifests when | breaks | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + b
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else s[: s.index(a)] + t + s[s.index(b) + len(b) :]
open(p, "w").write(s)
