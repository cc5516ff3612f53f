#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = open(os.path.join(D, "tools", "missed.txt")).read().split()
rows = []
for f in sorted(glob.glob(os.path.join(D, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], cell(m["needs"]), cell(m["what_it_breaks"]), "missed at first" if i in MISSED else ""))
p = os.path.join(D, "DESIGN.md"); s = open(p).read()
a, b = "<!-- planted bugs -->", "<!-- end -->"
t = a + "\n| change | caught by | needs | breaks | |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n" + b
i, j = s.index(a), s.index(b) + len(b)
open(p, "w").write(s[:i] + t + s[j:])
