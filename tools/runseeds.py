#!/usr/bin/env python3
"""Runs the checks against every planted bug in scratch copies (VERIF_REPO); development aid, not a check."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=sys.argv[1:] or sorted(os.listdir(V+"/seeded"))
def one(sid):
    m=json.load(open(f"{V}/seeded/{sid}/meta.json")); r=f"/tmp/sr-{sid}"
    shutil.rmtree(r,ignore_errors=True)
    subprocess.run(["cp","-a","/repo",r],check=True)
    subprocess.run(["git","apply",f"{V}/seeded/{sid}/patch.diff"],cwd=r,check=True)
    e=dict(os.environ,VERIF_REPO=r,VERIF_EVIDENCE=f"/tmp/ev-{sid}")
    p=subprocess.run(["python3",V+"/check.py",m["property"],"quick"],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    shutil.rmtree(r,ignore_errors=True); shutil.rmtree(f"/tmp/ev-{sid}",ignore_errors=True)
    return sid,m["property"],p.returncode,p.stdout
with ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex:
    for sid,pr,rc,out in ex.map(one,ids):
        obl=[l for l in out.splitlines() if l.startswith(("verus:","kani:","driver:","failed obligation"))]
        v=[l for l in out.splitlines() if l.startswith("VIOLATION")]
        print(sid,pr,"rc",rc,"|"," ; ".join(o[:150] for o in obl),"|",v[0].split("replay")[1][-40:] if v else "MISSED "+out[-300:],flush=True)
