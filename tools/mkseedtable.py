"""Writes the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json and tools/caught.txt)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.rstrip("\n").split(" ", 1) for l in open(os.path.join(V, "tools", "caught.txt")) if l.strip())
rows = ["| planted bug | check | clause it breaks | what it needs |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m, n = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], caught.get(n, "**missed**"), m["needs"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
