#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- decides one property on /repo's working tree.

Deciding steps, run concurrently:
  * verus: units extracted from /repo on this run (verus_units.py), every obligation discharged;
  * kani:  loop-free full-domain harnesses (kani/), every assertion discharged;
  * driver: execution of the real crate against independent oracles: it tests the
    contracts assumed of dependencies and turns a failed obligation into an input.

Outcome: exit 1 with a VIOLATION line when the driver has a failing input, or when an
obligation is rejected (then, without an input, the line ends with
no-failing-input-found). When a proof cannot be set up on this tree (lost anchor,
unsupported construct, resource limit), its functions fall back to the bounded
stand-in (the driver) and the evidence says so. Exit 0 otherwise.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import props

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    return e

def run(cmd, timeout, cwd=None, extra=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, (out or "") + "\n[timed out]"

def crate(scratch, name):
    """Copies a harness crate to the scratch directory (paths into shared/ and /repo kept)."""
    d = os.path.join(scratch, name)
    if not os.path.isdir(os.path.join(scratch, "shared")):
        shutil.copytree(os.path.join(HERE, "shared"), os.path.join(scratch, "shared"))
    shutil.copytree(os.path.join(HERE, name), d, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        p = os.path.join(d, "Cargo.toml")
        s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(p, "w").write(s)
    return d

# ------------------------------------------------------------------ driver
def drive(pid, tier, seed, scratch, res):
    t0 = time.time()
    name = props.P[pid].get("driver", "driver")
    d = crate(scratch, name)
    tgt = os.path.join(scratch, "drv")
    profile = props.P[pid].get("profile", "release")
    rc, out = run(["cargo", "build", "--offline", "--profile", profile, "--target-dir", tgt], 420, cwd=d)
    if rc != 0:
        res["driver"] = {"status": "nobuild", "log": out[-6000:]}
        return
    exe = os.path.join(tgt, profile, name)
    o = os.path.join(scratch, "driver.json")
    cap = 330 if tier == "thorough" else 200
    rc, out = run([exe, pid, tier, str(seed), o], cap)
    r = {"build_and_run_s": round(time.time() - t0, 2)}
    try:
        r["result"] = json.load(open(o))
    except Exception:
        r["result"] = None
    if rc == 0 and r["result"] is not None:
        r["status"] = "clean"
    elif rc == 1 and r["result"] and r["result"].get("violation"):
        r["status"] = "violation"
        r["input"] = r["result"]["violation"]["input"]
        r["what"] = r["result"]["violation"]["what"]
    elif rc is None:
        r["status"] = "error"
        r["log"] = out[-3000:]
    else:
        # The process died: run again, logging the case about to run.
        log = os.path.join(scratch, "case.log")
        rc2, out2 = run([exe, pid, tier, str(seed), o], cap + 120, extra={"DRV_CASE_LOG": log})
        case = open(log).read() if os.path.exists(log) else None
        if rc2 not in (0, 1, None) and case:
            r["status"] = "violation"
            r["input"] = case
            r["what"] = "the process died (exit %s) on this input: %s" % (rc2, out2[-600:].strip())
        else:
            r["status"] = "violation" if case else "error"
            r["input"] = case
            r["what"] = "the process died (exit %s): %s" % (rc, out[-600:].strip())
            r["log"] = out[-3000:]
    res["driver"] = r

# ------------------------------------------------------------------ kani
def kani(pid, tier, scratch, res):
    hs = props.P[pid].get("kani", [])
    if not hs:
        return
    t0 = time.time()
    d = crate(scratch, "kani")
    tgt = os.path.join(scratch, "kani-target")
    cmd = ["cargo", "kani", "--target-dir", tgt, "-j", "4", "--output-format", "terse"]
    for h in hs:
        cmd += ["--harness", h]
    cap = 600
    rc, out = run(cmd, cap, cwd=d)
    r = {"cmd": " ".join(cmd).replace(scratch, "$SCRATCH"), "wall_s": round(time.time() - t0, 2), "harnesses": {}}
    cur = {}
    # terse output with threads: "Thread k: Checking harness X..." then blocks per thread
    thread, state = None, {}
    for line in out.splitlines():
        m = re.match(r"Thread (\d+):(.*)", line)
        rest = line
        if m:
            thread = m.group(1)
            rest = m.group(2)
        m = re.search(r"Checking harness (?:\w+::)*(\w+)\.\.\.", rest)
        if m:
            state[thread] = m.group(1)
            r["harnesses"].setdefault(m.group(1), {"status": "unknown", "checks": 0, "failed": []})
            continue
        h = r["harnesses"].get(state.get(thread))
        if h is None:
            continue
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            h["checks"] = int(m.group(2))
            h["nfailed"] = int(m.group(1))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            h["failed"].append(m.group(1))
        m = re.search(r"Verification Time: ([\d.]+)s", line)
        if m:
            h["time_s"] = float(m.group(1))
        if "VERIFICATION:- SUCCESSFUL" in line:
            h["status"] = "proved"
        elif "VERIFICATION:- FAILED" in line:
            h["status"] = "failed"
    missing = [h for h in hs if h not in r["harnesses"] or r["harnesses"][h]["status"] == "unknown"]
    bad = []
    for h, v in r["harnesses"].items():
        if v["status"] != "failed":
            continue
        real = [f for f in v["failed"] if not re.search(r"unwinding assertion|not currently supported|unsupported|NaN", f)]
        v["real"] = real
        (bad if real else missing).append(h)
    if bad:
        r["status"] = "rejected"
        r["obligations"] = ["%s: %s" % (h, "; ".join(r["harnesses"][h]["real"][:4])) for h in bad]
    elif missing:
        r["status"] = "undecided"
        r["why"] = "no verdict for " + ", ".join(missing)
    else:
        r["status"] = "proved"
    if r["status"] != "proved":
        r["log"] = out[-8000:]
    res["kani"] = r

# ------------------------------------------------------------------ verus
def verus(pid, tier, scratch, res):
    units = props.P[pid].get("verus", [])
    if not units:
        return
    import verus_units
    r = {"units": {}}
    t0 = time.time()
    # an entry is a unit, or (unit, pattern of the functions this property rests on: of their names, or with :: of owner::name)
    units = [(u, None) if isinstance(u, str) else u for u in units]
    def one(x):
        u, pat = x
        try:
            y = verus_units.check(u, REPO, os.path.join(scratch, "verus"), run, tier)
        except Exception as e:  # noqa: the proof machinery must never take the check down
            y = {"status": "undecided", "why": "%s: %s" % (type(e).__name__, e)}
        if pat and y["status"] == "rejected":
            def name(o):   # FILE: OWNER::NAME, or NAME
                f, _, n = o.split(" [")[0].replace(" (derived)", "").partition(": ")
                if not n: f, n = "", f
                return "%s: %s" % (f, n if "::" in n else "::" + n) if "::" in pat else n.rsplit("::", 1)[-1]
            mine = [o for o in y["rejected"] if re.search(pat, name(o))]
            y["other_properties"] = [o for o in y["rejected"] if o not in mine]
            y["rejected"] = mine
            if not mine:
                y["status"] = "proved"
                y["why"] = "the obligations rejected belong to functions other properties rest on"
        r["units"][u] = y
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, units))
    r["units"] = {u: r["units"][u] for u, _ in units}
    st = [x["status"] for x in r["units"].values()]
    r["status"] = "rejected" if "rejected" in st else "undecided" if "undecided" in st else "proved"
    r["wall_s"] = round(time.time() - t0, 2)
    r["obligations"] = [o for x in r["units"].values() for o in x.get("rejected", [])]
    res["verus"] = r

# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = props.P[pid]
    scratch = tempfile.mkdtemp(prefix="rdfv-%s-" % pid)
    res = {}
    try:
        ts = [threading.Thread(target=f, args=a) for f, a in (
            (drive, (pid, tier, seed, scratch, res)),
            (kani, (pid, tier, scratch, res)),
            (verus, (pid, tier, scratch, res)),
        )]
        # crates are copied concurrently: create shared/ first
        shutil.copytree(os.path.join(HERE, "shared"), os.path.join(scratch, "shared"))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    drv = res.get("driver", {"status": "error", "log": "driver thread died"})
    proofs = {k: res[k] for k in ("verus", "kani") if k in res}
    for k in ("verus", "kani"):
        if cfg.get(k) and k not in res:
            proofs[k] = {"status": "undecided", "why": "the step died"}

    rejected = [o for p in proofs.values() if p["status"] == "rejected" for o in p.get("obligations", [])]
    undecided = {k: p.get("why") or "; ".join("%s: %s" % (u, x.get("why")) for u, x in p.get("units", {}).items()
                                              if x["status"] == "undecided")
                 for k, p in proofs.items() if p["status"] == "undecided"}
    found = drv["status"] == "violation"
    violation = found or bool(rejected)

    # ---- evidence
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    dres = drv.get("result") or {}
    fully = bool(proofs) and not undecided
    level = cfg["level"] if fully else "exploration"
    cov = {}
    obligations = discharged = 0
    functions, trusted, details, solver = [], [], {}, 0.0
    v = proofs.get("verus")
    if v:
        details["verus"] = {}
        for u, x in v.get("units", {}).items():
            obligations += x.get("obligations", 0)
            discharged += x.get("discharged", 0)
            functions += x.get("functions", [])
            trusted += x.get("trusted", [])
            solver += x.get("smt_s", 0.0)
            details["verus"][u] = {k: x.get(k) for k in ("status", "obligations", "discharged", "smt_s", "why", "rewrites", "vacuity", "cmd", "other_properties") if x.get(k) is not None}
    k = proofs.get("kani")
    if k:
        hs = k.get("harnesses", {})
        details["kani"] = {"status": k["status"], "harnesses": hs, "wall_s": k.get("wall_s"), "why": k.get("why")}
        for h in hs.values():
            obligations += h.get("checks", 0)
            discharged += h.get("checks", 0) - h.get("nfailed", 0) if h["status"] != "unknown" else 0
            solver += h.get("time_s", 0.0)
        functions += cfg.get("kani_functions", [])
        trusted.append("Kani 0.68 / CBMC 6.11 and the Rust compiler front end (harnesses are compiled against the real crate)")
    if v:
        trusted.append("Verus 0.2026.09.13 and Z3; the mechanical extraction of tools/ and verus_units.py")
    cov["evaluations"] = dres.get("evaluations", 0)
    cov["distinct_nontrivial"] = dres.get("distinct", 0)
    cov["rule"] = "driver: cases are generated per the scopes listed; distinct by hash of the case; the case is checked against an independent oracle"
    cov["samples"] = dres.get("samples") or dres.get("scopes") or ["(none)"]
    cov["driver_scopes"] = dres.get("scopes", [])
    if proofs:
        cov["obligations"] = obligations
        cov["discharged"] = discharged
        cov["checker_cmd"] = "python3 check.py %s %s" % (pid, tier)
        cov["trusted_base"] = sorted(set(trusted))
        cov["functions_under_contract"] = sorted(set(functions))
        cov["solver_s"] = round(solver, 3)
        cov["back_ends"] = details
    if undecided:
        cov["fallback"] = "bounded stand-in (driver) for: " + json.dumps(undecided)
    cov["bounded_parts"] = cfg.get("bounded", [])
    cov["explanation"] = cfg["note"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + sorted(set(trusted)),
          "wall_s": round(time.time() - t0, 3), "violations": 1 if violation else 0}
    ev["driver_status"] = drv["status"]
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    # ---- outcome
    for name, p in proofs.items():
        print("%s: %s" % (name, p["status"]))
    for n, why in undecided.items():
        print("  %s undecided (%s): bounded stand-in used" % (n, (why or "")[:500]))
    print("driver: %s (%s cases)" % (drv["status"], dres.get("evaluations", 0)))
    if violation:
        rp = os.path.join(ev_dir, "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "failing_input": drv.get("input"), "what": drv.get("what"),
                       "replay": "cd %s && cargo run --offline --release -- %s %s %s /dev/stdout" % (cfg.get("driver", "driver"), pid, tier, seed),
                       "failed_obligations": rejected,
                       "verifier_output": {n: p.get("log") or {u: x.get("log") for u, x in p.get("units", {}).items() if x.get("log")}
                                           for n, p in proofs.items() if p["status"] == "rejected"}}, f, indent=1)
            f.write("\n")
        if found:
            print("failing input: %s\n  %s" % ((drv.get("input") or "")[:2000], (drv.get("what") or "")[:2000]))
        for o in rejected:
            print("failed obligation: %s" % o[:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if found else " no-failing-input-found"))
        sys.exit(1)
    if drv["status"] in ("nobuild", "error"):
        print(drv.get("log", "")[-3000:])
        if fully:
            print("the driver gave no answer; all obligations are discharged")
            sys.exit(0)
        print("no answer")
        sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
