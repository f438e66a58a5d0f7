#!/usr/bin/env python3
"""Builds /verif/seeded/ from seeds.py; validates each in a scratch copy of /repo (build, tests, demo)."""
import json, os, shutil, subprocess, sys, tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import seeds
OUT=os.path.join(HERE,"..","seeded")
DEMO='''#!/usr/bin/env bash
# Exits 0 when the crate in the current directory behaves, nonzero otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rdf-types = { path = "$repo" }
iref = "3"
langtag = "0.4"
[workspace]
E
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''
def sh(c,cwd=None,t=400): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
only=sys.argv[1:]
scratch="/tmp/seedrepo"
shutil.rmtree(scratch,ignore_errors=True)
sh("cp -a /repo "+scratch)
base=set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) if False else None
for e in seeds.S:
    sid,prop,f,old,new,needs,breaks,main=e[:8]
    if only and sid not in only: continue
    d=os.path.join(OUT,sid); os.makedirs(d,exist_ok=True)
    sh("git checkout -q -- .",scratch)
    p=os.path.join(scratch,f); s=open(p).read()
    n=s.count(old)
    assert n==1,(sid,"occurrences",n)
    open(p,"w").write(s.replace(old,new))
    open(d+"/patch.diff","w").write(sh("git diff",scratch).stdout)
    open(d+"/demo.sh","w").write(DEMO if prop!="C23" else DEMO.replace('path = "$repo" }','path = "$repo", features = ["serde"] }').replace('iref = "3"','serde_json = "1"\niref = "3"')); os.chmod(d+"/demo.sh",0o755)
    open(d+"/main.rs","w").write(main)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    t=sh(". /opt/vp/env.sh; cargo test --offline --features contextual,serde 2>&1 | grep -E 'test result|warning: unused|error|FAILED'",scratch)
    passed=sum(int(l.split(" passed")[0].split()[-1]) for l in t.stdout.splitlines() if "test result" in l)
    bad=sh("bash %s/demo.sh"%d,scratch)
    sh("git checkout -q -- .",scratch)
    good=sh("bash %s/demo.sh"%d,scratch)
    print(sid,prop,"tests",passed,"demo patched",bad.returncode,"clean",good.returncode, "" if passed==232 and bad.returncode and good.returncode==0 else "  <<<<< "+t.stdout[-800:]+bad.stdout[-500:]+good.stdout[-800:],flush=True)
shutil.rmtree(scratch,ignore_errors=True)
