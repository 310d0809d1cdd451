#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and planted-script/*."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what the checks lacked when the bug was first planted
FIRST = {}
for l in open(os.path.join(ROOT, "tools/missed_first.txt")):
    if ":" in l and not l.startswith("#"):
        k, v = l.split(":", 1)
        FIRST[k.strip()] = v.strip()
rows = []
for d in ("seeded", "planted-script"):
    base = os.path.join(ROOT, d)
    for n in sorted(os.listdir(base)):
        p = os.path.join(base, n, "meta.json")
        if os.path.exists(p):
            m = json.load(open(p))
            rows.append((m["property"], n, m["needs"], d))
rows.sort()
out = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
for p, n, needs, d in rows:
    out.append("| %s%s | %s | %s | %s |" % (n, "" if d == "seeded" else " (script)", p, needs.replace("|", "/"), "yes, *after* " + FIRST[n] if n in FIRST else "yes"))
f = os.path.join(ROOT, "DESIGN.md")
t = open(f).read()
i = t.index("| planted bug |")
open(f, "w").write(t[:i] + "\n".join(out) + "\n")
print(len(rows), "planted bugs")
