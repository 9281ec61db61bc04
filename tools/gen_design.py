#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    rows.append((m["property"], d, m["needs"]))
t = "| property's check | catches | which needs |\n|---|---|---|\n"
t += "".join("| %s | %s | %s |\n" % (p, d, n.replace("|", "\\|")) for p, d, n in sorted(rows))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + t + "<!-- /bugs -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
