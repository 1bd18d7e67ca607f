#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.abspath(__file__))
missed = {
    "s206-knn-early": "searches of many sizes where data are many",
    "s151-room-ahead": "an allocation refused in a single case is a violation",
    "s154-radius-sign": "negative radii also where the closest datum is checked",
    "s175-measured-place": "user types placed apart from their geometry (added with the bug)",
    "s194-short-ring": "geometries put into the holes of others",
    "s131-dedup-ring": "vertices repeated in succession in polygons",
    "s51-f32-reach": "enormous worlds", "s79-single-vertex": "shapes of one vertex",
    "s93-chain-per-datum": "over 100000 data under a comparator that touches every quadrant",
    "s100-int-display": "bounds with corners of very different magnitude",
}
extra = os.path.join(root, "missed.json")
if os.path.exists(extra):
    missed.update(json.load(open(extra)))
rows = []
for d in sorted(os.listdir(root + "/seeded"), key=lambda n: [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", n)]):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {missed.get(d, '')} |")
t = open(root + "/DESIGN.md").read()
head = "| bug | property | what it breaks | needs | missed first; added |\n|---|---|---|---|---|\n"
i = t.index("| bug | property |")
j = i
while t[j:j + 1] == "|":
    j = t.index("\n", j) + 1 if "\n" in t[j:] else len(t)
open(root + "/DESIGN.md", "w").write(t[:i] + head + "\n".join(rows) + "\n" + t[j:])
print(len(rows))
