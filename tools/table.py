"""Refresh the table of planted changes in DESIGN.md from seeded/*/meta.json.

The last column (what was strengthened) is kept from the present table.
"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- planted -->\n") + len("<!-- planted -->\n"), s.index("<!-- /planted -->")
old = {}
for line in s[a:b].splitlines()[2:]:
    f = [x.strip() for x in line.strip("|").split("|")]
    old[f[0]] = f[-1]
rows = ["| planted change | property | what it needs | strengthening when first missed |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    needs = str(m["needs"]).replace("|", "/")
    rows.append(f"| {d} | {m['property']} | {needs} | {old.get(d, '')} |")
s = s[:a] + "\n".join(rows) + "\n" + s[b:]
open(p, "w").write(s)
