#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
m = {"version": 1, "setup_cmd": "python3 -c \"import props\" && verus --version >/dev/null && cargo kani --version >/dev/null",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo as it is", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in props.NOT_APPLICABLE.items()],
     "notes": "See DESIGN.md. Every check rebuilds from /repo's working tree in a scratch directory it removes."}
for pid in sorted(props.P):
    c = props.P[pid]
    e = {"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
         "evidence_file": "evidence/%s.json" % pid, "technique": c["technique"], "level": c["level"],
         "level_note": c["note"] + ((" Bounded parts: " + "; ".join(c["bounded"]) + ".") if c.get("bounded") else "")
         + ((" Assumes: " + "; ".join(c["assumptions"]) + ".") if c.get("assumptions") else "")}
    if c.get("theorems"):
        e["theorems"] = c["theorems"]
    m["checks"].append(e)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
