#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from the results of tryseeded.sh."""
import os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = {}
for l in open("/tmp/seeded-results.txt"):
    m = re.match(r"(\S+) (C\d+) (.*)check=(\d)(?: \((\d+) s: ([^)]*)\))?", l)
    if m and os.path.isdir(f"{V}/seeded/{m[1]}"):
        rows[m[1]] = (m[2], m[4], (m[6] or "").strip())
s = open(f"{V}/DESIGN.md").read()
h = "| planted bug | property | caught by `quick` of | violation kinds |\n|---|---|---|---|\n"
i = s.index(h)
j = i + len(h)
while s[j : j + 1] == "|":
    j = s.index("\n", j) + 1
t = h + "".join(f"| {k} | {p} | {p if c == '1' else '**missed**'} | {v.replace(' ', ', ')} |\n" for k, (p, c, v) in sorted(rows.items()))
open(f"{V}/DESIGN.md", "w").write(s[:i] + t + s[j:])
print(len(rows), "of", len(os.listdir(f"{V}/seeded")))
