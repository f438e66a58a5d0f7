#!/usr/bin/env python3
"""mutdrv.py FILE ...: small changes to the functions of /repo/src/FILE (as tools/mutate.py makes them), each run through the
repository's tests and then the drivers of every property anchored in the file. Prints the changes that pass both, for
reading: the driver alone finds no input. Development aid. Env: J jobs, N changes per file, SEED."""
import json, os, random, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import queue, props, check
ANCH = {}
for l in open(HERE + "/properties.jsonl"):
    x = json.loads(l)
    for f in x["anchors"]["files"]: ANCH.setdefault(f[4:], []).append(x["id"])
N = int(os.environ.get("N", "20"))
W = "/tmp/md-%d" % os.getpid()
def env(): return dict(os.environ, CARGO_NET_OFFLINE="true", PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"])
def setup(k):
    d = "%s/%d" % (W, k); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    for n in ("driver", "sdriver"):
        shutil.copytree(os.path.join(HERE, n), d + "/" + n, ignore=shutil.ignore_patterns("target"))
        p = d + "/" + n + "/Cargo.toml"; s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % d); open(p, "w").write(s)
    if os.path.isdir(HERE + "/shared"): shutil.copytree(HERE + "/shared", d + "/shared")
    return d
def run(c, t, cwd):
    try: p = subprocess.run(c, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True); return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return None, ""
def work(k, q, st):
    d = setup(k)
    while True:
        try: f, it, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = "%s/repo/src/%s" % (d, f); s = open(p).read(); ls = s.split("\n"); assert ls[n - 1] == old
        ls[n - 1] = new; open(p, "w").write("\n".join(ls))
        try:
            rc, o = run(["cargo", "test", "--offline", "-q"], 120, d + "/repo")
            if rc != 0:
                st["nobuild" if "could not compile" in o else "tests"] = st.get("nobuild" if "could not compile" in o else "tests", 0) + 1; continue
            hit = None
            for pid in ANCH.get(f, []):
                nm = props.P[pid].get("driver", "driver"); prof = props.P[pid].get("profile", "release")
                rc, o = run(["cargo", "build", "--offline", "--profile", prof], 300, d + "/" + nm)
                if rc != 0: hit = "nobuild " + nm; break
                rc, o = run([d + "/%s/target/%s/%s" % (nm, prof, nm), pid, "quick", "1", d + "/o.json"], 200, d)
                if rc != 0: hit = pid; break
            if hit: st[hit] = st.get(hit, 0) + 1
            else: print("SURVIVES", f, it.owner, it.name, n, "|", old.strip(), "=>", new.strip(), flush=True)
        finally: open(p, "w").write(s)
def main():
    q = queue.Queue(); rnd = random.Random(int(os.environ.get("SEED", "1"))); allm = []
    for f in sys.argv[1:]:
        sys.argv[1] = f
        import importlib.util
        sp = importlib.util.spec_from_file_location("mu_" + re.sub(r"\W", "_", f), HERE + "/tools/mutate.py")
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); m.F = f
        ms = list(m.mutants()); rnd.shuffle(ms); allm += [(f,) + x for x in ms[:N]]
    rnd.shuffle(allm)
    for x in allm: q.put(x)
    st = {}; ts = [threading.Thread(target=work, args=(k, q, st)) for k in range(int(os.environ.get("J", "3")))]
    for t in ts: t.start()
    for t in ts: t.join()
    print(len(allm), "changes", st); shutil.rmtree(W)
if __name__ == "__main__": main()
