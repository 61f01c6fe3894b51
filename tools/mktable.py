#!/usr/bin/env python3
"""Writes the table of planted bugs and the number of repaired defects into DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property (check that reports it) | what it breaks | what it needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    note = "" if m.get("caught", True) else " (**missed**)"
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']}{note} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
n = sum(1 for l in open(os.path.join(V, "tools", "fixes.txt")) if l.strip())
s = re.sub(r"<!-- n -->.*?<!-- /n -->", f"<!-- n -->{n}<!-- /n -->", s)
open(p, "w").write(s)
