"""Verus units: annotated text = verus/<unit>.rs with the functions named there extracted from
the repository's current source on every run (rustx.py), then checked by Verus.

Directives in a unit (each on lines starting with //@; a line `//@| ...` continues the last one):
  //@include FILE [k=v ...]       textual inclusion of verus/FILE with @k@ replaced by v
  //@item FILE | NAME             a struct or enum (attributes dropped, fields made pub)
  //@derive FILE | NAME | TRAIT [| SPEC]  the method of a derived comparison or Hash, written out as the derive defines it (field by
                                field in order, variants by position); the manual impl if there is one instead
  //@serde FILE | NAME           the specification (doc, reads, readable) of a type's derived Serialize and Deserialize, as
                                serde documents the derive for the item's shape and its serde attributes
  //@fn FILE | OWNER | NAME       a function; OWNER is the impl header, empty for free functions
  //@  bare                       no visibility (methods of a trait impl)
  //@  as NAME                    name under which it is emitted
  //@  attr A                     attribute put on it
  //@  ret r                      name of the result in the contract
  //@  spec S                     requires / ensures
  //@  ghost x = E               ghost variable bound at the start of the body
  //@  hide F ...                 specification functions whose definition this function's proof does without
  //@  proof P                    ghost code at the start of the body
  //@  closure N (T0, T1) -> o: T S     types and contract of the Nth closure (parameters c0, c1, ..)
  //@  eta                       `.map(PATH)` read as `.map(|x| PATH(x))` (then a closure like the others)
  //@  named                     `impl` parameter types become type parameters __I<position>
  //@  inline N                  the Nth closure is the argument of Option::map / and_then: read as a match
  //@  (in any of these, $N is the Nth parameter's name and %N that of the Nth `let mut` of the body)
  //@  bind N P                  the Nth closure is bound to __cN before its statement, and ghost code after that
  //@  tail P                     the closure the body ends with is bound to __f and P put after it
  //@  loop N S                   invariants of the Nth loop
  //@  into N F                  the Nth loop's iterator is made by F (default IntoIterator::into_iter); F = vecmut: a loop
                                over `&mut X`, X a Vec, goes by index (X.len(), X.at_mut(i))
  //@  pre N P                   ghost code before the Nth loop (its iterator, __itN, made)
  //@  body N P                  ghost code at the start of the Nth loop's body
  //@  after N P                 ghost code after the Nth loop
  //@  subst `A` => `B`           token replacement (recorded, must apply; `subst?` need not)
  //@end
  //@always P                  ghost code at the start of every function that follows
  //@trust UNIT / //@endtrust    functions in between are emitted with their contract only: it is discharged in UNIT
Bodies are otherwise verbatim. Any mismatch raises Lost: the unit is then undecided.
"""
import json, os, re, signal, subprocess, time
import rustx
from rustx import Lost, T, tokenize, normtext, show

HERE = os.path.dirname(os.path.abspath(__file__))
VDIR = os.path.join(HERE, "verus")
RLIMIT = 30
BUDGET = 280   # seconds for one unit, retries included

class Gen:
    def __init__(self, repo):
        self.repo, self.files = repo, {}
        self.out, self.line = [], 1
        self.map = []        # (first line, last line, "file: owner::fn")
        self.functions, self.rewrites = [], []
        self.imported = []
        self.always = ""     # ghost code at the start of every function
        self.vac = []        # lines of assert(false) probes
        self.probe = False
        self.path = None     # name of the generated file

    def emit(self, s):
        self.out.append(s + "\n")
        self.line += s.count("\n") + 1

    def items(self, f):
        if f not in self.files:
            p = os.path.join(self.repo, "src", f)
            if not os.path.exists(p): raise Lost("no file " + f)
            self.files[f] = rustx.items(tokenize(open(p).read()))
        return self.files[f]

    def note(self, where, what):
        self.rewrites.append("%s: %s" % (where, what))

def expand(path, subst):
    """Template lines with includes resolved."""
    out = []
    text = open(path).read()
    for k, v in subst.items():
        text = text.replace("@%s@" % k, v)
    for l in text.split("\n"):
        m = re.match(r"\s*//@include\s+(\S+)\s*(.*)", l)
        if m:
            kv = dict(re.findall(r"(\w+)=`([^`]*)`", m.group(2)))
            out += expand(os.path.join(VDIR, m.group(1)), kv)
        else:
            out.append(l)
    return out

def parse(lines):
    """-> list of ('text', line) / ('item', file, name) / ('fn', dict)"""
    out, cur, last, trust = [], None, None, None
    for l in lines:
        m = re.match(r"\s*//@(.*)", l)
        if not m:
            if cur is not None and l.strip():
                raise ValueError("text inside //@fn: " + l)
            if cur is None: out.append(("text", l))
            continue
        d = m.group(1)
        if d.startswith("|"):
            last[-1] += "\n" + d[1:]
            continue
        d = d.strip()
        k, _, r = d.partition(" ")
        if k == "trust": trust = r.strip()
        elif k == "endtrust": trust = None
        elif k == "always": out.append(("always", r))
        elif k == "item":
            a = [x.strip() for x in r.split("|")]
            last = ["item"] + a
            out.append(last)
        elif k == "serde":
            out.append(("serde", [x.strip() for x in r.split("|")]))
        elif k == "derive":
            out.append(("derive", [x.strip() for x in r.split("|", 3)]))
        elif k == "fn":
            a = [x.strip() for x in r.split("|")]
            cur = {"file": a[0], "owner": a[1], "name": a[2], "d": [], "trust": trust}
        elif k == "end":
            out.append(("fn", cur)); cur = None
        else:
            last = [k, r]
            cur["d"].append(last)
    return out

def replace_tokens(ts, a, b):
    A = [t.s for t in tokenize(a)]
    out, i, n = [], 0, 0
    while i < len(ts):
        if [t.s for t in ts[i:i + len(A)]] == A:
            r = T(b, ts[i].nl)
            out += r
            i += len(A); n += 1
        else:
            out.append(ts[i]); i += 1
    return out, n

def fmt_pieces(lit):
    """A format string literal -> [("lit", text) | ("arg", key, spec)], the text in source form."""
    if not lit.startswith('"'): raise Lost("format string " + lit)
    s, out, cur, i = lit[1:-1], [], "", 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i) + 1
            cur += s[i:j]; i = j
        elif s[i] == "\\":
            cur += s[i:i + 2]; i += 2
        elif s.startswith("{{", i) or s.startswith("}}", i):
            cur += s[i]; i += 2
        elif s[i] == "{":
            j = s.index("}", i)
            if cur: out.append(("lit", cur)); cur = ""
            key, _, spec = s[i + 1:j].partition(":")
            out.append(("arg", key, spec)); i = j + 1
        else:
            cur += s[i]; i += 1
    if cur: out.append(("lit", cur))
    return out

def strlit_facts(src):
    """What a string literal (given in source form) holds, character by character."""
    cs = re.findall(r"\\u\{[0-9a-fA-F_]*\}|\\x[0-9a-fA-F]{2}|\\.|[^\\]", src, re.S)
    return 'reveal_strlit("%s"); assert("%s"@ =~= seq![%s]);' % (src, src, ", ".join("'%s'" % {"'": "\\'", '\\"': '"', "\n": "\\n"}.get(c, c) for c in cs)) if cs else ""

def fmt_macros(g, where, ts):
    """format!(..) and write!(f, ..) read as the sequence of writes they stand for (core::fmt::write
    stops at the first error)."""
    out, i = [], 0
    while i < len(ts):
        if ts[i].s in ("format", "write", "writeln") and ts[i].k == "id" and i + 2 < len(ts) and ts[i + 1].s == "!" and ts[i + 2].s in rustx.OPEN:
            e = rustx.match(ts, i + 2)
            args = [fmt_macros(g, where, a) for a in rustx.split_commas(ts[i + 3:e])]
            nl = ts[i].nl
            f = None
            if ts[i].s != "format":
                f, args = args[0], args[1:]
            if ts[i].s == "writeln":
                if not args: args = [T('""', nl)]
                args[0] = T(args[0][0].s[:-1] + '\\n"', nl) if len(args[0]) == 1 and args[0][0].k == "str" else args[0]
            if len(args[0]) != 1 or args[0][0].k != "str": raise Lost(where + ": format string")
            named, pos, n = {}, [], 0
            for a in args[1:]:
                if len(a) > 2 and a[0].k == "id" and a[1].s == "=": named[a[0].s] = show(a[2:])
                else: pos.append(show(a))
            ps = []
            for p in fmt_pieces(args[0][0].s):
                if p[0] == "lit":
                    ps.append(("lit", p[1])); continue
                key = p[1].strip()
                if key == "":
                    v = pos[n]; n += 1
                elif key.isdigit(): v = pos[int(key)]
                else: v = named.get(key, key)
                sp = re.sub(r"\W", lambda m: {"#": "alt", "?": "dbg", "0": "0"}.get(m.group(0), "_"), p[2])
                ps.append(("arg", v, sp))
            rev = " ".join(strlit_facts(p[1]) for p in ps if p[0] == "lit")
            if f is None:
                b = "".join(('__o.lit("%s"); ' % p[1]) if p[0] == "lit" else ("__o.arg%s(&(%s)); " % ("_" + p[2] if p[2] else "", p[1])) for p in ps)
                t = "{ proof { %s } let mut __o = Out::new(); %s __o.done() }" % (rev, b)
            else:
                F = show(f)
                cs = [('%s.write_str("%s")' % (F, p[1])) if p[0] == "lit" else ("%s.write_arg%s(&(%s))" % (F, "_" + p[2] if p[2] else "", p[1])) for p in ps]
                if not cs: cs = ["Ok(())"]
                t = cs[-1]
                for c_ in reversed(cs[:-1]):
                    t = "match %s { Ok(()) => %s, Err(__e) => Err(__e) }" % (c_, t)
                t = "({ proof { %s } %s })" % (rev, t)
            out += T(t, nl)
            g.note(where, "%s! read as the writes it stands for, in order, stopping at the first error" % ts[i].s)
            i = e + 1
        else:
            out.append(ts[i]); i += 1
    return out

def receiver(ts, i):
    """First token of the postfix expression that ends at i."""
    while True:
        if ts[i].s in (")", "]"):
            d = 0
            while True:
                if ts[i].s in rustx.CLOSE: d += 1
                elif ts[i].s in rustx.OPEN: d -= 1
                if d == 0: break
                i -= 1
            if i > 0 and ts[i - 1].k == "id" and ts[i - 1].s not in ("match", "in", "if", "return", "let"): i -= 1
            elif ts[i - 1].s in (")", "]"): i -= 1; continue
        elif ts[i].s == "?": i -= 1; continue
        elif ts[i].k not in ("id", "num"): return None
        if i > 1 and ts[i - 1].s in (".", "::"): i -= 2
        else: return i

def option_closures(g, where, ts):
    """E.is_some_and(|P| B), E.is_none_or(|P| B), E.map_or(LITERAL, |P| B) and E.unwrap_or_else(|| B) on options: the match they stand for."""
    i = 0
    while i < len(ts):
        if ts[i].s == "." and i + 2 < len(ts) and ts[i + 1].s in ("is_some_and", "is_none_or", "map_or", "unwrap_or_else") and ts[i + 2].s == "(":
            e = rustx.match(ts, i + 2)
            w, args = ts[i + 1].s, [a for a in rustx.split_commas(ts[i + 3:e]) if a]
            b = receiver(ts, i - 1)
            c = args[-1] if args else []
            dflt = args[0] if w == "map_or" and len(args) == 2 else None
            good = b is not None and c and c[0].s in ("|", "||") and len(args) == (2 if w == "map_or" else 1) and (dflt is None or all(t.k in ("id", "num") or t.s in ("::", "-", "(", ")") for t in dflt))
            if good and c[0].s == "|":
                k = next((n for n in range(1, len(c)) if c[n].s == "|"), None)
                good = k is not None and all(t.s != ":" for t in c[1:k])
            if good:
                nl = ts[i].nl
                pre = []
                if c[0].s == "|":
                    pat, body = c[1:k], c[k + 1:]
                    if pat[0].s == "&": pre, pat = T("let ", nl) + pat[1:] + T(" = *__m; ", nl), T("__m", nl)
                else: pat, body = [], c[1:]
                some = T("Some(__x) => __x, None => {", nl) if w == "unwrap_or_else" else T("Some(", nl) + pat + T(") => {", nl) + pre
                tail = T("} })", nl) if w == "unwrap_or_else" else T("}, None => ", nl) + ({"is_some_and": T("false"), "is_none_or": T("true")}.get(w) or dflt) + T(" })", nl)
                ts = ts[:b] + T("(match ", nl) + ts[b:i] + T(" {", nl) + some + body + tail + ts[e + 1:]
                g.note(where, "Option::%s with a closure read as the match it stands for" % w)
                i = b
        i += 1
    return ts

def gen_fn(g, c):
    it = rustx.find(g.items(c["file"]), "fn", c["owner"], c["name"])
    where = "%s: %s%s" % (c["file"], (re.sub(r"^impl\s*(<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)?\s*", "", c["owner"]) + "::") if c["owner"] else "", c["name"])
    D = {}
    for k, v in c["d"]: D.setdefault(k, []).append(v)
    if D.get("subst") or D.get("subst?"):
        it = rustx.Item(it.kind, it.name, it.owner, list(it.toks), it.line)
    for s in D.get("subst", []):
        m = re.match(r"(?s)\s*`(.*?)`\s*=>\s*`(.*?)`", s)
        it.toks, n = replace_tokens(it.toks, m.group(1), m.group(2))
        if not n: raise Lost("%s: `%s` not in the text" % (where, m.group(1)))
        g.note(where, "`%s` read as `%s`" % (m.group(1), m.group(2)))
    for s in D.get("subst?", []):
        m = re.match(r"(?s)\s*`(.*?)`\s*=>\s*`(.*?)`", s)
        it.toks, n = replace_tokens(it.toks, m.group(1), m.group(2))
        if n: g.note(where, "`%s` read as `%s`" % (m.group(1), m.group(2)))
    if any(t.s == "Formatter" for t in it.toks):   # the elided lifetime of a formatter
        ts, _ = replace_tokens(list(it.toks), "Formatter<'_>", "Formatter")
        it = rustx.Item(it.kind, it.name, it.owner, ts, it.line)
    if "eta" in D:   # .map(PATH) -> .map(|__x| PATH(__x))
        ts, out, i = it.toks, [], 0
        while i < len(ts):
            if ts[i].s == "." and i + 3 < len(ts) and ts[i + 1].s in ("map", "and_then") and ts[i + 2].s == "(":
                e = rustx.match(ts, i + 2)
                arg = ts[i + 3:e]
                if arg and all(t.k == "id" or t.s == "::" for t in arg):
                    out += ts[i:i + 3] + T("|__x|", ts[i].nl) + arg + T("(__x)", ts[i].nl)
                    i = e; continue
            out.append(ts[i]); i += 1
        it = rustx.Item(it.kind, it.name, it.owner, out, it.line)
    if any(t.s == "eprintln" for t in it.toks):   # a message on the standard error: dropped
        ts, out, i = it.toks, [], 0
        while i < len(ts):
            if [t.s for t in ts[i:i + 3]] == ["eprintln", "!", "("]:
                e = rustx.match(ts, i + 2)
                if e != i + 4 or ts[i + 3].k != "str" or re.search(r"[{}]", ts[i + 3].s) or ts[e + 1].s != ";": raise Lost(where + ": eprintln!")
                g.note(where, "eprintln!(%s) dropped" % ts[i + 3].s)
                i = e + 2; continue
            out.append(ts[i]); i += 1
        it = rustx.Item(it.kind, it.name, it.owner, out, it.line)
    if any(t.s in ("is_some_and", "is_none_or", "map_or", "unwrap_or_else") for t in it.toks):
        it = rustx.Item(it.kind, it.name, it.owner, option_closures(g, where, list(it.toks)), it.line)
    lits = []   # what the strings written as they stand hold
    for i in range(len(it.toks) - 3):
        if it.toks[i].s == "." and it.toks[i + 1].s in ("write_str", "push_str") and it.toks[i + 2].s == "(" and it.toks[i + 3].k == "str" and it.toks[i + 3].s.startswith('"'):
            l = strlit_facts(it.toks[i + 3].s[1:-1])
            if l and l not in lits: lits.append(l)
    if any(t.s in ("format", "write", "writeln") and t.k == "id" for t in it.toks):
        it = rustx.Item(it.kind, it.name, it.owner, fmt_macros(g, where, list(it.toks)), it.line)
    name, gen, par, ret, wh, body = rustx.split_fn(it)
    if body[0].s != "{": raise Lost(where + ": no body")
    if not D.get("ret") and "ret" in D: pass
    if "named" in D:   # `x: impl B` read as `x: __I` with a type parameter `__I: B`
        ps, extra = [], []
        for i, p in enumerate(rustx.split_commas(par)):
            for k in range(len(p) - 1):
                if p[k].s == ":" and p[k + 1].s == "impl":
                    extra.append((T("__I%d :" % i, p[k].nl) + p[k + 2:]))
                    p = p[:k + 1] + T("__I%d" % i, p[k].nl)
                    break
            ps.append(p)
        if extra:
            g.note(where, "`impl` parameter types named")
            inner_ = gen[1:-1] if gen else []
            gs = rustx.split_commas(inner_) + extra
            gen = T("<") + [t for n, x in enumerate(gs) for t in (T(",") if n else []) + x] + T(">")
            par = [t for n, x in enumerate(ps) for t in (T(",") if n else []) + x]
    # parameters
    params, lets = [], []
    for i, p in enumerate(rustx.split_commas(par)):
        pat, k = [], 0
        d = 0
        for k, t in enumerate(p):
            if t.s in rustx.OPEN: d += 1
            elif t.s in rustx.CLOSE: d -= 1
            elif t.s == ":" and not d: break
        else:
            if [t.s for t in p] == ["mut", "self"]:
                p = p[1:]
                lets.append("let mut self__ = self;")
                body = [T("self__", t.nl)[0] if t.k == "id" and t.s == "self" else t for t in body]
                g.note(where, "`mut self` bound by let")
            params.append(show(p)); continue   # self, &self, &mut self
        pat = p[:k]
        if len(pat) == 1 or (pat[0].s == "mut" and len(pat) == 2):
            params.append(show(p))
        else:
            params.append("__a%d: %s" % (i, show(p[k + 1:])))
            lets.append("let %s = __a%d;" % (show(pat), i))
            g.note(where, "parameter pattern `%s` bound by let" % show(pat))
    muts = [body[i + 2].s for i in range(len(body) - 2) if body[i].s == "let" and body[i + 1].s == "mut"]   # %N: the Nth `let mut`
    # $N in a contract is the Nth parameter, whatever it is called (self counts)
    names = []
    for q in params:
        m = re.match(r"(?:mut )?(\w+)\s*:", q)
        names.append(m.group(1) if m else "self")
    for k in D:
        if k not in ("subst", "subst?"):
            D[k] = [re.sub(r"\$(\d)", lambda m: names[int(m.group(1))] if int(m.group(1)) < len(names) else m.group(0), re.sub(r"%(\d)", lambda m: muts[int(m.group(1))] if int(m.group(1)) < len(muts) else m.group(0), v)) for v in D[k]]
    if c.get("trust") and not any(t.s == "impl" for t in ret or []):   # (`impl Fn` needs the body)
        r = D.get("ret", ["__r"])[0]
        name = D.get("as", [name])[0]
        g.emit("#[verifier::external_body] // imported")
        g.emit(("" if "bare" in D else "pub(crate) ") + "fn %s%s(%s) -> (%s: %s) %s" % (name, show(gen), ", ".join(params), r, show(ret) if ret else "()", show(wh)))
        if D.get("spec"): g.emit("\n".join(D["spec"]))
        g.emit("{ unimplemented!() }")
        g.imported.append("%s (contract discharged in unit %s)" % (where, c["trust"]))
        return
    # closures
    inner = body[1:-1]
    cl = rustx.closures(inner)
    want = {}
    for v in D.get("closure", []):
        m = re.match(r"(?s)(\d+)\s*\((.*?)\)\s*->\s*(\w+)\s*:\s*([^\n]+?)(?:\s+(requires|ensures)\b(.*))?$", v)
        if not m: raise ValueError("closure directive: " + v)
        want[int(m.group(1))] = m
    inl = D.get("inline", [])
    inl = [n for n in range(len(cl)) if n not in want] if "*" in [v.strip() for v in inl] else sorted(int(v) for v in inl)
    if len(cl) != len(want) + len(inl):
        raise Lost("%s: %d closures, %d annotated" % (where, len(cl), len(want) + len(inl)))
    # loops
    lp = rustx.loops(inner)
    into = dict(v.split(None, 1) for v in D.get("into", []))
    inv = {}
    for v in D.get("loop", []):
        n, _, s = v.partition(" ")
        inv[int(n)] = s
    if len(lp) != len(inv):
        raise Lost("%s: %d loops, %d annotated" % (where, len(lp), len(inv)))
    ghost_at = {w: dict(v.split(None, 1) for v in D.get(w, [])) for w in ("body", "after", "pre")}
    edits = []   # (start, end, replacement tokens)
    for n, (s, b, e) in enumerate(cl):
        if n in inl:
            # RECV.map(|PAT| BODY)  ->  match RECV { Some(PAT) => Some(BODY), None => None }
            if not (inner[s].s in ("|", "||") and inner[s - 1].s == "(" and inner[s - 2].s in ("map", "and_then", "or_else") and inner[s - 3].s == "."
                    and e < len(inner) and inner[e].s in (")", ",")):
                raise Lost(where + ": closure is not the argument of Option::map / and_then")
            close = rustx.match(inner, s - 1)
            i = receiver(inner, s - 4)
            if i is None: raise Lost(where + ": receiver of map")
            nl = inner[s].nl
            pat = inner[s + 1:b - 1]
            w = inner[s - 2].s
            edits.append((i, i, T("(match", inner[i].nl)))
            pre = []
            if w == "or_else":
                if inner[s].s != "||": raise Lost(where + ": or_else")
                edits.append((s - 3, b, T("{ Some(__x) => Some(__x), None => {", nl)))
                edits.append((e, close + 1, T("} })", inner[close].nl)))
                g.note(where, "Option::or_else with a closure read as the match it stands for")
                continue
            if pat[0].s == "&":   # reference patterns are not read by Verus
                pre = T("let ", nl) + pat[1:] + T(" = *__m; ", nl)
                pat = T("__m", nl)
            edits.append((s - 3, b, T("{ Some(", nl) + pat + T(") => Some({" if w == "map" else ") => ({", nl) + pre))
            edits.append((e, close + 1, T("}), None => None })", inner[close].nl)))
            g.note(where, "Option::%s with a closure read as the match it stands for" % w)
            continue
        if any(v.split(None, 1)[0] == str(n) for v in D.get("bind", [])):
            edits.append((s, s, T("__BIND%d" % n, inner[s].nl)))
        m = want[n]
        types = [show(x) for x in rustx.split_commas(tokenize(m.group(2)))]
        bar = s + (1 if inner[s].s == "move" else 0)
        pats = rustx.split_commas(inner[bar + 1:b - 1]) if inner[bar].s == "|" else []
        if len(pats) != len(types): raise Lost(where + ": closure arity")
        ps, ls = [], []
        for i, (p, ty) in enumerate(zip(pats, types)):
            d = 0
            for k, t in enumerate(p):
                if t.s in rustx.OPEN: d += 1
                elif t.s in rustx.CLOSE: d -= 1
                elif t.s == ":" and not d:
                    p = p[:k]; break
            ps.append("c%d: %s" % (i, ty))
            if p[0].s == "&": ls.append("let %s = *c%d;" % (show(p[1:]), i))
            else: ls.append("let %s = c%d;" % (show(p), i))
        spec = (m.group(5) + m.group(6)) if m.group(5) else ""
        head = T("%s|%s| -> (%s: %s) %s {" % ("move " if bar > s else "", ", ".join(ps), m.group(3), m.group(4), spec), inner[s].nl)
        edits.append((s, b, head + T(" ".join(ls), inner[s].nl)))
        edits.append((e, e, T("}" + (" __DNIB%d" % n if any(v.split(None, 1)[0] == str(n) for v in D.get("bind", [])) else ""), inner[e - 1].nl)))
        g.note(where, "closure parameters given types, patterns bound by let")
    for n, (k, b) in enumerate(lp):
        if inner[k].s == "for":
            # for PAT in E { B }
            j = k + 1
            while inner[j].s != "in": j = rustx.match(inner, j) + 1 if inner[j].s in rustx.OPEN else j + 1
            pat, ex = inner[k + 1:j], inner[j + 1:b]
            nl = inner[k].nl
            end = rustx.match(inner, b)
            binds = []   # `&x` in a pattern: bound by let
            for q in range(len(pat) - 1):
                if pat[q].s == "&" and pat[q + 1].k == "id" and pat[q + 1].s != "mut":
                    binds += T("let %s = *__r%d;" % (pat[q + 1].s, q), nl)
                    pat = pat[:q] + T("", nl) + T("__r%d" % q, nl) + pat[q + 2:]
                    break
            if any(t.s == "&" for t in pat): raise Lost(where + ": loop pattern")
            pre = T(" proof { " + ghost_at["pre"][str(n)] + " }", nl) if str(n) in ghost_at["pre"] else []
            start = k - 2 if k > 1 and inner[k - 1].s == ":" and inner[k - 2].k == "life" else k
            if binds: edits.append((b + 1, b + 1, binds))
            if into.get(str(n)) == "vecmut":
                if not (len(ex) == 3 and ex[0].s == "&" and ex[1].s == "mut"): raise Lost(where + ": not a loop over a mutable Vec")
                v = ex[2].s
                edits.append((start, start, T("let mut __k%d: usize = 0;" % n, nl) + pre))
                edits.append((k, k + 1, T("loop " + inv[n] + " { if __k%d >= %s.len() { break; } let " % (n, v), nl) + pat + T(" = %s.at_mut(__k%d); __k%d = __k%d + 1;" % (v, n, n, n), nl)))
                edits.append((k + 1, b, []))
                edits.append((end + 1, end + 1, T("}", inner[end].nl)))
                g.note(where, "`for` loop over a mutable Vec goes by index")
            elif len(ex) > 2 and ex[0].s == "&" and ex[1].s == "mut":   # IntoIterator for &mut I: the iterator itself, in place
                edits.append((k, k + 1, T("loop " + inv[n] + " { match ", nl) + ex[2:] + T(".next() { Some(", nl) + pat + T(") =>", nl)))
            else:
                edits.append((start, start, T("let mut __it%d = %s(" % (n, into.get(str(n), "IntoIterator::into_iter")), nl) + ex + T(");", nl) + pre))
                edits.append((k, k + 1, T("loop " + inv[n] + " { match __it%d.next() { Some(" % n, nl) + pat + T(") =>", nl)))
            if into.get(str(n)) != "vecmut":
                edits.append((k + 1, b, []))
                edits.append((end + 1, end + 1, T(", None => break } }", inner[end].nl)))
                g.note(where, "`for` loop desugared to loop / match next()")
        elif inner[k].s == "while" and inner[k + 1].s == "let":
            # while let PAT = E { B }
            j = k + 2
            while inner[j].s != "=": j = rustx.match(inner, j) + 1 if inner[j].s in rustx.OPEN else j + 1
            nl, end = inner[k].nl, rustx.match(inner, b)
            edits.append((k, k + 1, T("loop " + inv[n] + " { match ", nl) + inner[j + 1:b] + T("{", nl) + inner[k + 2:j] + T("=>", nl)))
            edits.append((k + 1, b, []))
            edits.append((end + 1, end + 1, T(", _ => break } }", inner[end].nl)))
            g.note(where, "`while let` loop read as loop / match")
        else:
            edits.append((b, b, T(inv[n], inner[b].nl)))
        if str(n) in ghost_at["body"]: edits.append((b + 1, b + 1, T("proof { " + ghost_at["body"][str(n)] + " }", inner[b].nl)))
        if str(n) in ghost_at["after"]:
            end = rustx.match(inner, b)
            edits.append((end + 1, end + 1, T(" proof { " + ghost_at["after"][str(n)] + " }", inner[end].nl)))
    tail = D.get("tail")
    if tail:
        if not cl or cl[0][2] != len(inner):
            raise Lost(where + ": the body does not end with a closure")
    res, i = [], 0
    for s, e, r in sorted(edits, key=lambda x: (x[0], x[1])):
        res += inner[i:s]
        if tail and s == cl[0][0] and e == cl[0][1]:
            res += T("let __f =", inner[s].nl)
        res += r
        i = e
    res += inner[i:]
    if tail:
        res += T(";")
    for v in D.get("bind", []):   # a closure expression has no effect: made before its statement
        n, P = v.split(None, 1)
        i = next(q for q, t in enumerate(res) if t.s == "__BIND%s" % n); j = next(q for q, t in enumerate(res) if t.s == "__DNIB%s" % n)
        c, nl = res[i + 1:j], res[i].nl
        res = res[:i] + T("__c" + n, nl) + res[j + 1:]
        d = 0
        while i > 0:
            x = res[i - 1].s
            if x in (")", "]") or d and x == "}": d += 1
            elif d and x in rustx.OPEN: d -= 1
            elif not d and x in (";", "{", "}"): break
            i -= 1
        res = res[:i] + T("let __c%s = " % n, nl) + c + T("; proof { " + P + " }", nl) + res[i:]
        g.note(where, "closure bound to a variable before its statement")
    r = D.get("ret", ["__r"])[0]
    attrs = "\n".join(D.get("attr", []) + (["#[verifier::loop_isolation(false)]"] if lp else []))
    spec = "\n".join(D.get("spec", []))
    first = g.line
    name = D.get("as", [name])[0]
    if attrs: g.emit(attrs)
    rt = show(ret) if ret else "()"
    g.emit("%sfn %s%s(%s) -> (%s: %s) %s" % ("" if "bare" in D else "pub(crate) ", name, show(gen), ", ".join(params), r, rt, show(wh)))
    if spec: g.emit(spec)
    g.emit("{")
    for v in D.get("hide", []): g.emit(" ".join("hide(%s);" % x for x in v.split()))
    for v in D.get("ghost", []): g.emit("let ghost %s;" % v)
    if g.always: g.emit("proof { " + g.always + " }")
    if lits: g.emit("proof { " + " ".join(lits) + " }")
    if D.get("proof"): g.emit("proof { " + "\n".join(D["proof"]) + " }")
    if g.probe:
        g.vac.append(g.line)
        g.emit("proof { assert(false); }")
    for l in lets: g.emit(l)
    g.emit(show(res))
    if tail:
        g.emit("proof { %s }" % "\n".join(tail))
        g.emit("__f")
        g.note(where, "the returned closure is named, to state its contract")
    g.emit("}")
    g.map.append((first, g.line - 1, where))
    g.functions.append(where)

def gen_item(g, a):
    f, name = a[0], a[1]
    its = [x for x in g.items(f) if x.kind in ("struct", "enum") and x.name == name]
    if len(its) != 1: raise Lost("%s: %d types named %s" % (f, len(its), name))
    it = its[0]
    ts = list(it.toks)
    for s in a[2:]:
        if s.startswith("#"): g.emit(s)
        else:
            m = re.match(r"(?s)\s*\??`(.*?)`\s*=>\s*`(.*?)`", s)
            ts, n = replace_tokens(ts, m.group(1), m.group(2))
            if not n and not s.startswith("?"): raise Lost("%s %s: `%s` not in the text" % (f, name, m.group(1)))
            if n: g.note("%s: %s" % (f, name), "`%s` read as `%s`" % (m.group(1), m.group(2)))
    # default type parameters are dropped by Verus' grammar in some positions: keep as is; fields made pub
    i = 0
    while ts[i].s not in ("{", "(", ";"): i += 1
    head = ts[:i]
    if ts[i].s == ";":
        g.emit("pub " + show(ts)); return
    e = rustx.match(ts, i)
    body = ts[i + 1:e]
    fields = []
    for fl in rustx.split_commas(body):
        while fl and fl[0].s == "#":
            fl = fl[rustx.match(fl, 1) + 1:]
        if it.kind == "struct":
            if fl[0].s == "pub":
                fl = fl[1:]
                if fl[0].s == "(": fl = fl[rustx.match(fl, 0) + 1:]
            fields.append("pub " + show(fl))
        else:
            fields.append(show(fl))
    tail = ts[e + 1:]
    g.emit("pub %s%s %s %s %s" % (show(head), "" , ts[i].s, ",\n".join(fields), ts[e].s + show(tail)))

METHOD = {"PartialEq": "eq", "PartialOrd": "partial_cmp", "Ord": "cmp", "Hash": "hash", "Default": "default", "Clone": "clone"}
def gen_derive(g, a):
    f, name, trait = a[:3]
    its = [x for x in g.items(f) if x.kind in ("struct", "enum") and x.name == name]
    if len(its) != 1: raise Lost("%s: %d types named %s" % (f, len(its), name))
    it = its[0]
    ds = set()
    for at in it.attrs:
        m = re.match(r"\[ (?:derive|educe) \( (.*) \) \]$", at)
        if m: ds |= {x.split("::")[-1].strip().split(" ")[0] for x in m.group(1).split(",")}
    meth = METHOD[trait]
    if trait not in ds:
        own = [x for x in g.items(f) if x.kind == "fn" and x.name == meth
               and re.match(r"impl\b.*\b%s (?:< (?:Self|%s\b.*?) > )?for %s\b" % (trait, name, name), x.owner)]
        if len(own) != 1: raise Lost("%s: %s for %s" % (f, trait, name))
        gen_fn(g, {"file": f, "owner": own[0].owner, "name": meth, "trust": None,
                   "d": [["bare", ""], ["subst?", "`std::hash::Hasher` => `Hasher`"]] + ([["ret", "r"], ["spec", a[3]]] if len(a) > 3 else [])})
        return
    ts = list(it.toks)
    i = 0
    while ts[i].s not in ("{", "(", ";"): i += 1
    method = {}
    def parts(body, named):
        out = []
        for n, fl in enumerate(rustx.split_commas(body)):
            by = None
            while fl and fl[0].s == "#":
                at = rustx.norm(fl[1:rustx.match(fl, 1) + 1])
                m = re.match(r"\[ educe \( Clone \( method \( ([\w :]+) \) \) \) \]$", at)
                if m: by = m.group(1)
                elif "educe" in at: raise Lost("%s %s: %s" % (f, name, at))
                fl = fl[rustx.match(fl, 1) + 1:]
            if by: method[str(n) if not named else next(t.s for t in fl if t.k == "id" and t.s not in ("pub", "crate"))] = by
            if fl and fl[0].s == "pub":
                fl = fl[1:]
                if fl[0].s == "(": fl = fl[rustx.match(fl, 0) + 1:]
            out.append(fl[0].s if named else str(n))
        return out
    def chain(xs, ys):   # the body over references xs, ys to the fields
        if trait == "PartialEq": return " && ".join("%s == %s" % (x, y) for x, y in zip(xs, ys)) or "true"
        if trait == "Hash": return " ".join("Hash::hash(%s, state);" % x for x in xs)
        eq, call = ("Some(Ordering::Equal)", "PartialOrd::partial_cmp") if trait == "PartialOrd" else ("Ordering::Equal", "Ord::cmp")
        t = None
        for x, y in reversed(list(zip(xs, ys))):
            c = "%s(%s, %s)" % (call, x, y)
            t = c if t is None else "match %s { %s => %s, __c => __c }" % (c, eq, t)
        return t or eq
    if it.kind == "struct":
        fs = parts(ts[i + 1:rustx.match(ts, i)], ts[i].s == "{") if ts[i].s != ";" else []
        if trait == "PartialEq": b = " && ".join("self.%s == other.%s" % (x, x) for x in fs) or "true"
        elif trait == "Clone": b = "%s { %s }" % (name, ", ".join("%s: %s" % (x, "%s(&self.%s)" % (method[x], x) if x in method else ("self.%s.clone()" if len(a) > 3 else "Clone::clone(&self.%s)") % x) for x in fs))
        elif trait == "Default": b = "%s { %s }" % (name, ", ".join("%s: Default::default()" % x for x in fs))
        else: b = chain(["&self.%s" % x for x in fs], ["&other.%s" % x for x in fs])
    else:
        vs = []
        for v in rustx.split_commas(ts[i + 1:rustx.match(ts, i)]):
            while v and v[0].s == "#": v = v[rustx.match(v, 1) + 1:]
            named = len(v) > 1 and v[1].s == "{"
            if any(t.s == "=" for t in v): raise Lost("%s %s: discriminant" % (f, name))
            vs.append((v[0].s, named, parts(v[2:-1], named) if len(v) > 1 else []))
        def pat(v, c):
            n, named, fs = v
            if not fs: return "%s::%s" % (name, n)
            if named: return "%s::%s { %s }" % (name, n, ", ".join("%s: %s%s" % (x, c, x) for x in fs))
            return "%s::%s(%s)" % (name, n, ", ".join(c + x for x in fs))
        arms = []
        if trait == "Hash":
            for k, v in enumerate(vs):
                d = "state.write_isize(%d); " % k if len(vs) > 1 else ""
                arms.append("%s => { %s%s }" % (pat(v, "a"), d, chain(["a" + x for x in v[2]], v[2])))
            b = "match self { %s }" % ", ".join(arms)
        elif trait == "Clone":
            for v in vs:
                n, named, fs = v
                arms.append("%s => %s" % (pat(v, "a"), "%s::%s" % (name, n) + ("" if not fs else " { %s }" % ", ".join("%s: Clone::clone(a%s)" % (x, x) for x in fs) if named else "(%s)" % ", ".join("Clone::clone(a%s)" % x for x in fs))))
            b = "match self { %s }" % ", ".join(arms)
        else:
            any_ = lambda v: "%s::%s%s" % (name, v[0], " { .. }" if v[1] else "(..)" if v[2] else "")
            for k, v in enumerate(vs):
                arms.append("(%s, %s) => %s" % (pat(v, "a"), pat(v, "b"), chain(["a" + x for x in v[2]], ["b" + x for x in v[2]])))
                for l, u in enumerate(vs):
                    if l != k:
                        o = "Ordering::" + ("Less" if k < l else "Greater")
                        arms.append("(%s, %s) => %s" % (any_(v), any_(u), "false" if trait == "PartialEq" else "Some(%s)" % o if trait == "PartialOrd" else o))
            b = "match (self, other) { %s }" % ", ".join(arms)
    where = "%s: %s::%s (derived)" % (f, name, meth)
    first = g.line
    g.emit({"PartialEq": "fn eq(&self, other: &Self) -> (r: bool)", "PartialOrd": "fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>)",
            "Default": "fn default() -> (r: Self)", "Clone": "fn clone(&self) -> (r: Self)",
            "Ord": "fn cmp(&self, other: &Self) -> (r: Ordering)", "Hash": "fn hash<H: Hasher>(&self, state: &mut H)"}[trait])
    if len(a) > 3: g.emit(a[3])
    g.emit("{")
    if g.always: g.emit("proof { " + g.always + " }")
    if g.probe:
        g.vac.append(g.line)
        g.emit("proof { assert(false); }")
    g.emit(b)
    g.emit("}")
    g.note(where, "derive(%s) read as the code it stands for" % trait)
    g.map.append((first, g.line - 1, where))
    g.functions.append(where)

def gen_serde(g, a):
    """What serde's derives write and read, as serde documents them: of an item with named fields, the fields under their
    names in order; of a tuple, its elements; of a tuple of one field, the field (marked, unless transparent); of an enum,
    the variant's name and content, or the content alone if untagged, read as the first variant that accepts it."""
    f, name = a[:2]
    own = a[2] if len(a) > 2 else None   # what the type keeps true of its values
    where = "%s: serde of %s (derived)" % (f, name)
    its = [x for x in g.items(f) if x.kind in ("struct", "enum") and x.name == name]
    if len(its) != 1: raise Lost("%s: %d types named %s" % (f, len(its), name))
    it = its[0]
    ds, flags = set(), set()
    def attribute(at):
        """The parts of an attribute, those of a cfg_attr of the serde feature included."""
        m = re.match(r"\[ cfg_attr \( feature = \"serde\" , (.*) \) \]$", at)
        if m: return [rustx.norm(x) for x in rustx.split_commas(tokenize(m.group(1)))]
        if "cfg_attr" in at and "serde" in at: raise Lost("%s: %s" % (where, at))
        return [at[2:-2]]
    for at in it.attrs:
        for x in attribute(at):
            m = re.match(r"derive \( (.*) \)$", x)
            if m: ds |= {y.strip() for y in m.group(1).split(" , ")}
            m = re.match(r"serde \( (.*) \)$", x)
            if m: flags |= {y.strip() for y in m.group(1).split(" , ")}
            elif x.startswith("serde "): raise Lost("%s: %s" % (where, x))
    if flags - {"untagged", "transparent"}: raise Lost("%s: serde(%s)" % (where, flags))
    if {"untagged", "transparent"} <= flags or ("transparent" in flags) != (it.kind == "struct" and "transparent" in flags) or ("untagged" in flags and it.kind != "enum"):
        raise Lost("%s: serde(%s)" % (where, flags))
    ser, de = "serde :: Serialize" in ds, "serde :: Deserialize" in ds
    if any("serde" in x.s for x in it.toks if x.k == "id"): raise Lost(where + ": serde attribute on a field")
    ts = list(it.toks)
    i, gen = 2, []
    if ts[2].s == "<":
        d, j = 0, 2
        while True:
            if ts[j].s == "<": d += 1
            elif ts[j].s == ">": d -= 1
            j += 1
            if not d: break
        for p in rustx.split_commas(ts[3:j - 1]):
            gen.append(p[0].s)
        i = j
    if ts[i].s not in ("{", "("): raise Lost(where + ": shape")
    ty = name + ("<%s>" % ", ".join(gen) if gen else "")
    def clean(x):
        while x and x[0].s == "#": x = x[rustx.match(x, 1) + 1:]
        if x and x[0].s == "pub":
            x = x[1:]
            if x[0].s == "(": x = x[rustx.match(x, 0) + 1:]
        return x
    def shape(body, named):   # -> (names, types)
        fs = [clean(x) for x in rustx.split_commas(body)]
        if named: return [x[0].s for x in fs], [show(x[2:]) for x in fs]
        return [str(n) for n in range(len(fs))], [show(x) for x in fs]
    types_ = [x for x in gen if x[0] != "'"]
    V = "serde::Serialize::valid(&%s)"
    D, R = "serde::Serialize::doc(&%s)", "<%s as serde::Deserialize<'de>>::%s"
    def content(named, names, types, acc, transparent=False):
        """-> (document, fn d -> reading condition, fn d -> readable) of fields reached by acc(name)"""
        n = len(names)
        if named:
            doc = "Doc::Fields(seq![%s])" % ", ".join('(seq![%s], %s)' % (", ".join("'%s'" % c for c in x), D % acc(x)) for x in names)
            key = lambda k: "seq![%s]" % ", ".join("'%s'" % c for c in names[k])
            has = lambda d: ["%s is Fields" % d, "%s->Fields_0.len() == %d" % (d, n)] + ["%s->Fields_0[%d].0 == %s" % (d, k, key(k)) for k in range(n)]
            at = lambda d, k: "%s->Fields_0[%d].1" % (d, k)
        elif n == 1:
            doc = D % acc("0") if transparent else "Doc::Newtype(Box::new(%s))" % (D % acc("0"))
            has = lambda d: [] if transparent else ["%s is Newtype" % d]
            at = lambda d, k: d if transparent else "*%s->Newtype_0" % d
        else:
            doc = "Doc::Tuple(seq![%s])" % ", ".join(D % acc(x) for x in names)
            has = lambda d: ["%s is Tuple" % d, "%s->Tuple_0.len() == %d" % (d, n)]
            at = lambda d, k: "%s->Tuple_0[%d]" % (d, k)
        return (doc, lambda d: " && ".join(has(d) + ["%s(%s, %s)" % (R % (types[k], "reads"), at(d, k), acc(names[k])) for k in range(n)]),
                lambda d: " && ".join(has(d) + ["%s(%s)" % (R % (types[k], "readable"), at(d, k)) for k in range(n)]) or "true")
    if it.kind == "struct":
        named = ts[i].s == "{"
        names, types = shape(ts[i + 1:rustx.match(ts, i)], named)
        if "transparent" in flags and len(names) != 1: raise Lost(where + ": transparent")
        doc = content(named, names, types, lambda x: "self." + x, "transparent" in flags or False)[0]
        _, rd, ok = content(named, names, types, lambda x: "v." + x, "transparent" in flags)
        reads, readable = rd("d"), ok("d")
        valid = " && ".join(V % ("self." + x) for x in names) or "true"
    else:
        arms, rds, oks, vs = [], [], [], []
        for v in rustx.split_commas(ts[i + 1:rustx.match(ts, i)]):
            v = clean(v)
            if any(t.s == "=" for t in v): raise Lost(where + ": discriminant")
            named = len(v) > 1 and v[1].s == "{"
            if len(v) == 1: raise Lost(where + ": unit variant")
            names, types = shape(v[2:-1], named)
            vn = v[0].s
            pat = "%s::%s%s" % (name, vn, " { %s }" % ", ".join("%s: x%s" % (x, x) for x in names) if named else "(%s)" % ", ".join("x" + x for x in names))
            doc, rd, ok = content(named, names, types, lambda x: "*x%s" % x if False else "x" + x, True)
            tag = "seq![%s]" % ", ".join("'%s'" % c for c in vn)
            vs.append("%s => %s" % (pat, " && ".join(V % ("x" + x) for x in names)))
            if "untagged" in flags:
                arms.append("%s => %s" % (pat, doc))
                rds.append("(v matches %s && %s)" % (pat, " && ".join([rd("d")] + ["!(%s)" % o for o in oks])))
                oks.append(ok("d"))
            else:
                arms.append("%s => Doc::Variant(%s, Box::new(%s))" % (pat, tag, doc))
                c = "d is Variant && d->Variant_0 == %s && " % tag
                rds.append("(v matches %s && %s)" % (pat, c + rd("(*d->Variant_1)")))
                oks.append(c + ok("(*d->Variant_1)"))
        doc = "match *self { %s }" % ", ".join(arms)
        valid = "match *self { %s }" % ", ".join(vs)
        reads, readable = " || ".join(rds), " || ".join("(%s)" % o for o in oks)
    if ser:
        g.emit("impl%s serde::Serialize for %s {\nopen spec fn doc(&self) -> Doc { %s }\nopen spec fn valid(&self) -> bool { %s }\n}"
               % ("<%s>" % ", ".join(x + ": serde::Serialize" if x in types_ else x for x in gen) if gen else "", ty, doc, own or valid))
    if de:
        g.emit("impl<'de%s> serde::Deserialize<'de> for %s {\nopen spec fn reads(d: Doc, v: Self) -> bool { %s }\nopen spec fn readable(d: Doc) -> bool { %s }\n}"
               % ("".join(", %s: serde::Deserialize<'de>" % x for x in types_), ty, reads, readable))
    g.note(where, "derive(%s)%s read as what serde documents it to do" % (", ".join(x for x, y in (("Serialize", ser), ("Deserialize", de)) if y), " with " + ", ".join(sorted(flags)) if flags else ""))
    g.imported.append("assumed: derive(%s) of %s (%s) does what serde documents" % (", ".join(x for x, y in (("Serialize", ser), ("Deserialize", de)) if y), name, f))

def const_text(g, f, name):
    """The string literal in the value of a constant."""
    ts = tokenize(open(os.path.join(g.repo, "src", f)).read())
    for i, t in enumerate(ts):
        if t.s == name and i and ts[i - 1].s == "const":
            j = i
            while ts[j].s != ";": j += 1
            lit = [x.s for x in ts[i:j] if x.k == "str"]
            if len(lit) == 1: return lit[0]
    raise Lost("%s: constant %s" % (f, name))

def generate(unit, repo, probe=False):
    g = Gen(repo)
    g.probe = probe
    for x in parse(expand(os.path.join(VDIR, unit + ".rs"), {})):
        if x[0] == "text":
            m = re.search(r"@const:(\S+):(\w+)@", x[1])
            g.emit(x[1].replace(m.group(0), const_text(g, m.group(1), m.group(2))) if m else x[1])
        elif x[0] == "always": g.always = x[1]
        elif x[0] == "item": gen_item(g, x[1:])
        elif x[0] == "serde": gen_serde(g, x[1])
        elif x[0] == "derive": gen_derive(g, x[1])
        else: gen_fn(g, x[1])
    return g

def trusted(text):
    """Names of everything assumed in the unit: external bodies, assume_specification, uninterpreted functions."""
    out = []
    owner = ""
    pend = False
    for l in text.split("\n"):
        m = re.match(r"(?:pub )?(?:impl|trait)\b.*", l.strip())
        if m and not l.startswith(" "):
            owner = re.sub(r"\s*\{.*", "", l.strip())
        if "external_body" in l: pend = "// imported" not in l   # (an imported contract is listed apart)
        m = re.search(r"assume_specification[^\[]*\[\s*(.*?)\s*\]", l)
        if m: out.append("assumed: " + m.group(1))
        m = re.search(r"\b(?:fn|struct)\s+(\w+)", l)
        if m and pend:
            kind = "type" if "struct" in l else "contract"
            out.append("assumed %s: %s%s" % (kind, (owner + " :: ") if "    " in l[:4] else "", m.group(1)))
            pend = False
    return out

def verus(path, extra, timeout):
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--error-format=json", "--triggers-mode", "silent", "--time"] + extra
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e,
                         start_new_session=True, cwd=os.path.dirname(path))
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, [], "timeout"
    try:
        js = json.loads(out)
    except Exception:
        js = None
    msgs = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try: msgs.append(json.loads(l))
            except Exception: pass
    return js, msgs, err

def where_of(g, line):
    for a, b, w in g.map:
        if a <= line <= b: return w
    return None

def analyse(g, js, msgs):
    """-> (failures [(where, text)], limits [(where)], hard error text or None)"""
    fails, limits, hard = [], [], None
    for m in msgs:
        if m.get("level") != "error": continue
        txt = m.get("message", "")
        if txt.startswith("aborting due to"): continue
        sp = [s for s in m.get("spans", []) if g.path is None or os.path.basename(s.get("file_name", "")) == g.path]   # (not in a macro of core)
        prim = [s for s in sp if s.get("is_primary")] or sp
        w = None
        for s in sp:
            if where_of(g, s["line_start"]) is not None:
                w = where_of(g, s["line_start"]); break
        clause = " ".join(" ".join(t["text"].strip() for t in s.get("text", [])[:2]) for s in sp[:2])[:300]
        if m.get("code") or "error" in txt[:0]:
            hard = hard or (txt + " @ " + (w or "?"))
        elif "Resource limit" in txt or "rlimit" in txt:
            limits.append(w or "lemma: " + clause[:120])
        elif re.match(r"(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|decreases not satisfied|possible division|loop invariant|unreachable|unable to prove|cannot show|recommendation not met|possible bit)", txt):
            fails.append((w or "lemma", "%s: %s" % (txt, clause)))
        else:
            hard = hard or (txt + " @ " + (w or clause))
    return fails, limits, hard

def check(unit, repo, scratch, run=None, tier="quick"):
    t0 = time.time()
    os.makedirs(scratch, exist_ok=True)
    res = {"status": "undecided", "obligations": 0, "discharged": 0, "functions": [], "trusted": [], "rejected": [], "smt_s": 0.0}
    try:
        g = generate(unit, repo)
    except (Lost, IndexError, KeyError) as e:
        res["why"] = "extraction: %s" % e
        return res
    text = "".join(g.out)
    path = os.path.join(scratch, unit + ".rs")
    open(path, "w").write(text)
    g.path = os.path.basename(path)
    res["functions"] = g.functions
    res["rewrites"] = sorted(set(g.rewrites))
    res["trusted"] = trusted(text) + g.imported
    tries = [["--rlimit", str(RLIMIT)], ["--rlimit", str(2 * RLIMIT), "--smt-option", "smt.random_seed=7"],
             ["--rlimit", str(2 * RLIMIT), "-V", "spinoff-all"]]
    res["cmd"] = "verus $SCRATCH/%s.rs --crate-type=lib --output-json %s" % (unit, " ".join(tries[0]))
    for n, ex in enumerate(tries):
        left = BUDGET - (time.time() - t0)
        if n and left < 40: break
        js, msgs, err = verus(path, ex, max(left, 60))
        if js is None:
            res["why"] = "verus gave no result: " + err[-600:]
            res["log"] = err[-4000:]
            if not msgs: continue
        fails, limits, hard = analyse(g, js, msgs)
        vr = (js or {}).get("verification-results", {})
        try:
            res["smt_s"] += js["times-ms"]["smt"]["total"] / 1000.0
        except Exception:
            pass
        ok = vr.get("success") and not vr.get("errors")
        res["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
        res["discharged"] = vr.get("verified", 0)
        if ok:
            res["status"] = "proved"
            res.pop("why", None); res.pop("log", None)
            res["rejected"] = []
            break
        res["log"] = "\n".join(m.get("rendered") or m.get("message", "") for m in msgs if m.get("level") == "error")[:8000]
        if hard or js is None:
            res["status"] = "undecided"
            res["why"] = "not within Verus' reach on this tree: " + (hard or "no result")
            break
        lemma = [f for f in fails if f[0] == "lemma"]
        fails = [f for f in fails if f[0] != "lemma"]
        if fails:
            res["status"] = "rejected"
            res["rejected"] = ["%s [%s]: %s" % (w, unit, t) for w, t in fails]
            res.pop("why", None)
        else:
            res["status"] = "undecided"
            res["why"] = "resource limit or lemma: " + "; ".join(limits + [t for _, t in lemma])[:600]
            res["rejected"] = []
    res["wall_s"] = round(time.time() - t0, 2)
    if tier == "thorough" and res["status"] == "proved":
        g2 = generate(unit, repo, probe=True)
        p2 = os.path.join(scratch, unit + "_probe.rs")
        open(p2, "w").write("".join(g2.out))
        js, msgs, err = verus(p2, ["--rlimit", str(RLIMIT)], 240)
        hit = set()
        for m in msgs:
            if m.get("level") == "error" and m.get("message", "").startswith("assertion failed"):
                for s in m.get("spans", []):
                    hit.add(s["line_start"])
        miss = [where_of(g2, l) for l in g2.vac if l not in hit]
        res["vacuity"] = {"probes": len(g2.vac), "contradictory_preconditions": miss}
    return res

if __name__ == "__main__":
    import sys
    u = sys.argv[1]
    repo = os.environ.get("VERIF_REPO", "/repo")
    r = check(u, repo, "/tmp/vx/out", None, sys.argv[2] if len(sys.argv) > 2 else "quick")
    log = r.pop("log", None)
    r["trusted"] = len(r["trusted"]); r["rewrites"] = len(r.get("rewrites", []))
    print(json.dumps(r, indent=1))
    if log: print(log)
