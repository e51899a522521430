"""Writes the list of planted bugs into DESIGN.md (from seeded/*/meta.json and seeded/caught.json)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
rows = ["| planted bug | what it breaks | reported by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    p = os.path.join(HERE, "seeded", d, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| {d} | {m['what_it_breaks']} Needs: {m['needs']} | {caught.get(d, '?')} |")
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda g: g[1] + "\n".join(rows) + "\n" + g[2], s, flags=re.S)
open(f, "w").write(s)
print(len(rows) - 2, "planted bugs;", [d for d in sorted(os.listdir(os.path.join(HERE, "seeded"))) if d not in caught])
