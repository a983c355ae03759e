#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
MISSED lists those which the checks did not catch when they were planted, with what was added."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c05-own-time-same-day": "times of the day in own dates (C05 times)",
    "c01-own-currency-price": "prices in the currency itself (C01-C04)",
    "c22-case": "families alike (C22)",
    "c25-price-truncated": "family large (C25)",
    "c10-gap-before": "instants around a price, family close (C10)",
}
MISSED.update(json.load(open(V + "/tools/missed.json")) if os.path.exists(V + "/tools/missed.json") else {})
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {MISSED.get(d, '')} |")
s = open(V + "/DESIGN.md").read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| planted bug | caught by | needs | missed at first; added then |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
