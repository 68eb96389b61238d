#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(here, "tools", "caught.json")))
out = []
out.append("| bug | breaks | caught by |\n|---|---|---|")
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    out.append(f"| {i} | {m['what_it_breaks'].strip()} | {c.get(i, '?')} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
open(p, "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(out) + "\n" + s[b:])
