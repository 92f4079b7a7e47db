#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (no check uses this)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(f))
    by.setdefault(d["property"], []).append((int(f.split("/")[-2][3:]), d))
n = sum(map(len, by.values()))
rows = ["<!-- planted: begin -->", "%d planted bugs; each is caught by the quick check of its own property (last tried one by one; see seeded/*/meta.json for the" % n,
        "full words).", "", "| check | bugs it catches: what each needs |", "|---|---|"]
for p in sorted(by):
    rows.append("| %s | %s |" % (p, "; ".join("%02d %s" % (i, d["needs"].replace("|", "/")) for i, d in sorted(by[p], key=lambda x: x[0]))))
rows.append("<!-- planted: end -->")
path = root + "/DESIGN.md"
s = open(path).read()
a, b = s.index("<!-- planted: begin -->"), s.index("<!-- planted: end -->") + len("<!-- planted: end -->")
open(path, "w").write(s[:a] + "\n".join(rows) + s[b:])
print(n)
