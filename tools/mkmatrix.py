#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md §7 from a log of runseeds.py."""
import re, sys, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | deductive step | driver | failed obligation |", "|---|---|---|---|---|"]
n = c = 0
for l in open(sys.argv[1]):
    m = re.match(r"(S\d+) (C\d+) rc (\d) \| (.*)", l)
    if not m: continue
    n += 1; c += m.group(3) == "1"
    t = m.group(4)
    ded = ", ".join("%s %s" % x for x in re.findall(r"\b(verus|kani): (\w+)", t)) or "–"
    drv = (re.search(r"driver: (\w+)", t) or [None, "?"])[1]
    ob = re.findall(r"failed obligation: ([^\[;]*?)(?: \[|: post|;|\||$)", t)
    rows.append("| %s | %s | %s | %s | %s |" % (m.group(1), m.group(2), ded, {"violation": "input found", "clean": "no input"}.get(drv, drv), (ob[0].strip().replace("|", "/")[:90] if ob else "")))
rows.append(""); rows.append("%d of %d caught." % (c, n))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
i = s.index("## 7."); j = s.index("\n", i)
s = s[:j] + "\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
