#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between its markers)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | reported by | needs | breaks |", "|-|-|-|-|"]
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d} | {m['property']} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} |")
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
