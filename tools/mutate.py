#!/usr/bin/env python3
"""mutate.py FILE [UNIT ...]: small changes to each function of /repo/src/FILE that a unit puts under contract, each
checked by the units that read it. Prints those every unit still proves (survivors) for reading. Development aid.
Env: J jobs, SAMPLE n (take every nth), SEED."""
import os, re, sys, shutil, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import verus_units as v, rustx
REPO = os.environ.get("VERIF_REPO", "/repo")
F = sys.argv[1]
W = "/tmp/mut-%d" % os.getpid()
SW = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("<=", "<"), (">=", ">"), ("true", "false"), ("false", "true"),
      ("Less", "Greater"), ("Greater", "Less"), ("Equal", "Less"), ("+=", "-="), ("-=", "+="), ("+", "-"), ("<", "<="), (">", ">="),
      ("0", "1"), ("1", "0"), ("2", "1"), ("3", "2"), ("is_some", "is_none"), ("is_none", "is_some"), ("break", "continue"), ("continue", "break"),
      ("subject", "object"), ("object", "subject"), ("predicate", "subject"), ("graph", "object"), ("subjects", "objects"), ("objects", "subjects"), ("predicates", "objects"),
      ("s", "o"), ("o", "s"), ("p", "o"), ("g", "o"), ("a", "b"), ("b", "a"), ("as_subject", "as_object"), ("as_object", "as_subject"), ("as_predicate", "as_object"),
      ("self", "other"), ("other", "self"), ("Some", "None"), ("min", "max"), ("max", "min"), ("remove", "get"), ("Any", "SameAsSubject"), ("SameAsSubject", "Any"), ("SameAsPredicate", "SameAsSubject"), ("SameAsObject", "SameAsSubject"),
      ("Included", "Excluded"), ("Unbounded", "Unbounded"), ("default_graph", "named_graphs"), ("Default", "Named")]
def mutants():
    src = open("%s/src/%s" % (REPO, F)).read()
    its = rustx.items(rustx.tokenize(src))
    ls = src.split("\n")
    seen = set()
    for it in its:
        if it.kind != "fn" or it.toks[-1].s == ";": continue
        a = it.toks[0].nl; b = it.toks[-1].nl
        # body starts after first { of fn
        for n in range(a, b + 1):
            l = ls[n - 1]
            if l.strip().startswith("//") or "eprintln!" in l: continue
            code = re.sub(r"//.*", "", l)
            pos = [(m.start(), m.end(), m.group()) for m in re.finditer(r"[A-Za-z_]\w*|\d+|==|!=|<=|>=|&&|\|\||\+=|-=|->|=>|::|<<|>>|[-+<>]", code)]
            if re.match(r"\s*(pub )?(fn|where|impl)\b", code): continue
            for s, e, t in pos:
                for x, y in SW:
                    if t == x and x != y:
                        yield it, n, l, l[:s] + y + l[e:]
            m = re.match(r"(\s*)(?!let |return|use |type )(.*);\s*$", code)
            if m and m.group(2).count("(") == m.group(2).count(")"): yield it, n, l, m.group(1) + ";"
            m = re.match(r"(\s*(?:\} else )?)if (?!let )(.*) \{\s*$", code)
            if m: yield it, n, l, m.group(1) + "if !(" + m.group(2) + ") {"
            m = re.match(r"(\s*)return (.*);\s*$", code)
            if m: yield it, n, l, m.group(1) + ";"
def units_of():
    out = []
    for f in sorted(os.listdir(HERE + "/verus")):
        u = f[:-3]
        try: t = "\n".join(str(x) for x in v.expand(os.path.join(HERE, "verus", f), {}))
        except Exception: continue
        out.append((u, t))
    return out
def main():
    us = sys.argv[2:]
    if not us:
        import props
        allu = set()
        for p in props.P.values():
            for x in p.get("verus", []): allu.add(x if isinstance(x, str) else x[0])
        us = [u for u in sorted(allu) if re.search(r"//@(fn|derive|item) " + re.escape(F) + r"\b", "\n".join(v.expand(os.path.join(v.VDIR, u + ".rs"), {})))]
    base = {u: "".join(v.generate(u, REPO).out) for u in us}
    ms = list(mutants())
    n = int(os.environ.get("SAMPLE", "1"))
    if n > 1:
        random.Random(int(os.environ.get("SEED", "1"))).shuffle(ms); ms = ms[:len(ms) // n]
    print(F, us, len(ms), "mutants", flush=True)
    def one(k):
        it, ln, old, new = ms[k]
        r = "%s/%d" % (W, k)
        shutil.copytree(REPO + "/src", r + "/src")
        p = r + "/src/" + F
        ls = open(p).read().split("\n"); ls[ln - 1] = new; open(p, "w").write("\n".join(ls))
        res = []
        for u in us:
            try: t = "".join(v.generate(u, r).out)
            except (rustx.Lost, IndexError, KeyError) as e: res.append("undecided"); break
            if t == base[u]: continue
            g = v.check(u, r, r + "/s")
            res.append(g["status"])
            if g["status"] != "proved": break
        shutil.rmtree(r)
        return it, ln, old, new, res
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for it, ln, old, new, res in ex.map(one, range(len(ms))):
            st = "unread" if not res else ("proved" if all(x == "proved" for x in res) else res[-1])
            cnt[st] = cnt.get(st, 0) + 1
            if st in ("proved", "unread") or (st == "undecided" and os.environ.get("UND")): print("%s %s:%d %s\n    - %s\n    + %s" % (st, F, ln, it.name, old.strip(), new.strip()), flush=True)
    print(F, cnt, flush=True)
    shutil.rmtree(W, ignore_errors=True)
if __name__ == "__main__": main()
