#!/usr/bin/env python3
"""vx.py UNIT [RLIMIT] [extra verus args]: generate a unit and run Verus once, errors shown (development aid)."""
import os, subprocess, sys, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import verus_units as v
u = sys.argv[1]; rl = sys.argv[2] if len(sys.argv) > 2 else "10"
g = v.generate(u, os.environ.get("VERIF_REPO", "/repo"))
os.makedirs("/tmp/vx/out", exist_ok=True)
p = "/tmp/vx/out/%s.rs" % u
open(p, "w").write("".join(g.out))
cmd = ["timeout", "300", "verus", p, "--crate-type=lib", "--triggers-mode", "silent", "--rlimit", rl, "--time-expanded", "--output-json", "--cap-lints=allow"] + sys.argv[3:]
r = subprocess.run(cmd, capture_output=True, text=True, cwd="/tmp/vx/out")
print(r.stderr[-9000:])
try:
    j = json.loads(r.stdout)
    print(j["verification-results"])
    for m in j["times-ms"]["smt"]["smt-run-module-times"]:
        fs = sorted(m.get("function-breakdown", []), key=lambda f: -f["time"])[:6]
        print([(f["function"].split("::")[-1], f["time"], f.get("success")) for f in fs])
except Exception as e:
    print(e, r.stdout[-2000:])
