#!/usr/bin/env python3
"""Functions of /repo/src (outside tests) that no Verus unit puts under contract (development aid)."""
import os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import verus_units as v, rustx
os.chdir(HERE)
seen = set()
import props
allu = set()
for p in props.P.values():
    for x in p.get("verus", []): allu.add(x if isinstance(x, str) else x[0])
n = lambda s: re.sub(r"[\s,]+", "", s)
for u in sorted(allu):
    for l in "\n".join(v.expand(os.path.join(v.VDIR, u + ".rs"), {})).split("\n"):
        m = re.match(r"\s*//@(fn|derive) ([^|]*)\|([^|]*)\|\s*(\w+)", l)
        if m: seen.add((m.group(2).strip(), n(m.group(3)), m.group(4)))
sn = set((a, c) for a, b, c in seen)
for root, _, fs in os.walk("/repo/src"):
    for f in sorted(fs):
        rel = os.path.relpath(os.path.join(root, f), "/repo/src")
        its = rustx.items(rustx.tokenize(open(os.path.join(root, f)).read()))
        fns = [i for i in its if i.kind == "fn"]
        mis = [i for i in fns if (rel, n(i.owner or ""), i.name) not in seen]
        print("%s: %d of %d unlisted" % (rel, len(mis), len(fns)))
        for i in mis: print("   ", "?" if (rel, i.name) in sn else " ", i.owner, "::", i.name)
