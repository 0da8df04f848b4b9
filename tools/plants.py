#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted changes from seeded/*/meta.json and tools/caught.txt."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(V, "tools", "caught.txt")):
    a = l.strip().split(None, 1)
    if a: caught[a[0]] = a[1] if len(a) > 1 else ""
rows = []
for f in glob.glob(os.path.join(V, "seeded", "*", "meta.json")):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append((d["property"], i, d["needs"], caught.get(i, "not run yet")))
out = ["| property | change | needs | caught by its quick check |", "|---|---|---|---|"]
out += ["| %s | %s | %s | %s |" % r for r in sorted(rows)]
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, b = "<!-- plants -->\n", "<!-- /plants -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
