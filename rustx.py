"""Mechanical extraction of items from Rust source text.

A tokenizer (comments dropped, everything else kept verbatim), an item finder, and the
few purely syntactic rewrites the Verus front end needs. Every rewrite applied is recorded
so that the evidence can list it. Anything unexpected raises Lost (-> "undecided").
"""
import re

class Lost(Exception):
    """The source no longer has the shape the annotations are attached to."""

class Tok:
    __slots__ = ("k", "s", "nl")
    def __init__(self, k, s, nl):
        self.k, self.s, self.nl = k, s, nl  # kind, text, line in the source file
    def __repr__(self):
        return self.s

P4 = ("<==>",)  # Verus operators, which loop invariants use
P3 = ("<<=", ">>=", "...", "..=", "==>", "=~=", "&&&", "|||")
P2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..")

def tokenize(src):
    out, i, n, line = [], 0, len(src), 1
    while i < n:
        c = src[i]
        if c == "\n":
            line += 1; i += 1; continue
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else:
                    if src[j] == "\n": line += 1
                    j += 1
            i = j; continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            j = src.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            out.append(Tok("str", src[i:j], line)); line += src.count("\n", i, j); i = j; continue
        m = re.compile(r'(?:b|c)?"(?:[^"\\]|\\.)*"', re.S).match(src, i)
        if m:
            out.append(Tok("str", m.group(), line)); line += m.group().count("\n"); i = m.end(); continue
        m = re.compile(r"b?'(?:[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))'").match(src, i)
        if m:
            out.append(Tok("chr", m.group(), line)); i = m.end(); continue
        m = re.compile(r"'[A-Za-z_]\w*").match(src, i)
        if m:
            out.append(Tok("life", m.group(), line)); i = m.end(); continue
        m = re.compile(r"(?:r#)?[A-Za-z_]\w*").match(src, i)
        if m:
            out.append(Tok("id", m.group(), line)); i = m.end(); continue
        m = re.compile(r"0[xob][0-9a-fA-F_]+\w*|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?\w*").match(src, i)
        if m:
            s = m.group()
            # "0..n" must not lex as a float, nor "t.0.1" as one
            if "." in s and ((out and out[-1].s == ".") or src.startswith("..", i + s.index("."))):
                s = s[:s.index(".")]
            out.append(Tok("num", s, line)); i += len(s); continue
        for L in (P4, P3, P2):
            w = len(L[0])
            if src[i:i + w] in L:
                out.append(Tok("p", src[i:i + w], line)); i += w; break
        else:
            out.append(Tok("p", c, line)); i += 1
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}

def match(ts, i):
    """Index of the delimiter closing ts[i]."""
    d = 0
    for j in range(i, len(ts)):
        if ts[j].k == "p":
            if ts[j].s in OPEN: d += 1
            elif ts[j].s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced delimiters")

def norm(ts):
    return " ".join(t.s for t in ts)

def normtext(s):
    return norm(tokenize(s))

class Item:
    def __init__(self, kind, name, owner, toks, line, attrs=()):
        self.kind, self.name, self.owner, self.toks, self.line, self.attrs = kind, name, owner, toks, line, attrs

def hoist(ts, b):
    """The structs, enums and impls declared in a function's body (at ts[b]) taken out of it."""
    out, nested, i, end = ts[:b + 1], [], b + 1, match(ts, b)
    start = True
    while i < end:
        if start and ts[i].s in ("struct", "enum", "impl"):
            j = i
            while ts[j].s not in ("{", ";"):
                j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
            e = match(ts, j) if ts[j].s == "{" else j
            nested += items(ts[i:e + 1])
            i = e + 1
            continue
        if ts[i].s in OPEN:
            e = match(ts, i)
            out += ts[i:e + 1]
            start = ts[i].s == "{"
            i = e + 1
            continue
        start = ts[i].s == ";"
        out.append(ts[i]); i += 1
    return out + ts[end:], nested

def items(ts, owner=""):
    """fn, struct, enum items, recursively in impl / trait / mod blocks (cfg(test) modules skipped)."""
    out, i, n = [], 0, len(ts)
    while i < n:
        attrs = []
        test = False
        # attributes
        while i < n and ts[i].s == "#":
            j = i + 1
            if ts[j].s == "!": j += 1
            e = match(ts, j)
            a = norm(ts[j:e + 1])
            attrs.append(a)
            if "cfg ( test )" in a or a == "[ test ]": test = True
            i = e + 1
        if i >= n: break
        # visibility
        b = i
        if ts[i].s == "pub":
            i += 1
            if i < n and ts[i].s == "(": i = match(ts, i) + 1
        while i < n and ts[i].s in ("const", "unsafe", "async", "default") and i + 1 < n and ts[i + 1].s in ("fn", "unsafe", "impl"):
            i += 1
        if i >= n: break
        t = ts[i]
        if t.s == "fn":
            name = ts[i + 1].s
            j = i
            while ts[j].s not in ("{", ";"):
                j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
            e = match(ts, j) if ts[j].s == "{" else j
            if not test:
                own, nested = hoist(ts[i:e + 1], j - i) if ts[j].s == "{" else (ts[i:e + 1], [])
                out.append(Item("fn", name, owner, own, t.nl))
                out += nested
            i = e + 1
        elif t.s in ("struct", "enum", "union"):
            name = ts[i + 1].s
            j = i
            while ts[j].s not in ("{", ";"):
                j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
            e = match(ts, j) if ts[j].s == "{" else j
            if not test: out.append(Item(t.s, name, owner, ts[i:e + 1], t.nl, tuple(attrs)))
            i = e + 1
        elif t.s in ("impl", "trait", "mod"):
            j = i
            while ts[j].s not in ("{", ";"):
                j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
            if ts[j].s == ";":
                i = j + 1; continue
            e = match(ts, j)
            if not test:
                o = norm(ts[i:j])
                out += items(ts[j + 1:e], o if t.s != "mod" else owner)
            i = e + 1
        else:
            # use / type / const / static / macro: skip to ; or block
            j = i
            while j < n and ts[j].s not in (";", "{"):
                j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
            if j < n and ts[j].s == "{":
                e = match(ts, j)
                # `use a::{b};`, `const X: T = { .. };` end at the semicolon; a macro_rules ends at the brace
                i = e + 1
                if i < n and ts[i].s == ";": i += 1
            else:
                i = j + 1
    return out

def find(its, kind, owner, name):
    o = normtext(owner)
    r = [x for x in its if x.kind == kind and x.name == name and x.owner == o]
    if len(r) != 1:
        raise Lost("%s %s::%s: %d items in the source" % (kind, owner, name, len(r)))
    return r[0]

# ------------------------------------------------------------------ printing
NOSPACE_BEFORE = {")", "]", ",", ";", ".", "?"}
def show(ts):
    """Prints tokens, one source line per line (whitespace is not significant in Rust)."""
    out, line, prev = [], None, None
    for t in ts:
        if line is not None and t.nl != line and t.nl:
            out.append("\n")
        elif prev is not None:
            a, b = prev.s, t.s
            glue = b in NOSPACE_BEFORE or a in ("(", "[", ".") or (a in ("&", "!", "*") and False)
            if b in ("(", "[") and prev.k == "id" and a not in ("in", "match", "if", "while", "return", "let", "else"):
                glue = True
            if a == "#" or (b == "!" and prev.k == "id"):
                glue = True
            if not glue:
                out.append(" ")
        out.append(t.s)
        if t.nl: line = t.nl
        prev = t
    return "".join(out)

def T(s, nl=0):
    r = tokenize(s)
    for t in r: t.nl = nl
    return r

# ------------------------------------------------------------------ closures and loops
def closures(ts):
    """(start, body_start, end) of every closure expression in ts, outermost first, in textual order."""
    out, i, n = [], 0, len(ts)
    while i < n:
        t = ts[i]
        prev = ts[i - 1].s if i else "("
        starts = t.s in ("|", "||") and (prev in ("(", ",", "=", "{", ";", "=>", "return", "move", "else", "[", "||", "&&") or (i and False))
        if starts:
            s = i - 1 if prev == "move" else i
            if t.s == "||":
                b = i + 1
            else:
                j = i + 1
                while ts[j].s != "|":
                    j = match(ts, j) + 1 if ts[j].s in OPEN else j + 1
                b = j + 1
            # the body: to the end of the expression
            if ts[b].s == "->":
                while ts[b].s != "{": b += 1
            e = b
            if ts[b].s == "{" :
                e = match(ts, b) + 1
                if e < n and ts[e].s in (".", "?"):
                    while e < n and ts[e].s not in (",", ")", "}", ";", "]"):
                        e = match(ts, e) + 1 if ts[e].s in OPEN else e + 1
            else:
                while e < n and ts[e].s not in (",", ")", "}", ";", "]"):
                    e = match(ts, e) + 1 if ts[e].s in OPEN else e + 1
            out.append((s, b, e))
            i = b
        else:
            i += 1
    return out

def loops(ts):
    """(kw index, body '{' index) of every loop in textual order."""
    out = []
    for i, t in enumerate(ts):
        if t.k == "id" and t.s in ("while", "loop", "for") and not (t.s == "for" and i + 1 < len(ts) and ts[i + 1].s == "<"):
            j = i + 1
            while ts[j].s != "{":
                j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
            out.append((i, j))
    return out

def split_fn(it):
    """tokens of a fn item -> (name, generics tokens, params tokens, return tokens, where tokens, body tokens incl. braces)"""
    ts = it.toks
    i = 2
    gen = []
    if ts[i].s == "<":
        d, j = 0, i
        while True:
            s = ts[j].s
            if s == "<": d += 1
            elif s == ">": d -= 1
            elif s == ">>": d -= 2
            elif s in ("(", "["): j = match(ts, j)
            j += 1
            if d <= 0: break
        gen = ts[i:j]; i = j
    if ts[i].s != "(": raise Lost("fn %s: parameters" % it.name)
    e = match(ts, i)
    par = ts[i + 1:e]
    i = e + 1
    ret = []
    if ts[i].s == "->":
        j = i + 1
        while ts[j].s not in ("{", "where", ";"):
            j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
        ret = ts[i + 1:j]; i = j
    wh = []
    if ts[i].s == "where":
        j = i
        while ts[j].s not in ("{", ";"):
            j = match(ts, j) + 1 if ts[j].s in ("(", "[") else j + 1
        wh = ts[i:j]; i = j
    return it.toks[1].s, gen, par, ret, wh, ts[i:]

def split_commas(ts):
    out, cur, i, angle = [], [], 0, 0
    while i < len(ts):
        t = ts[i]
        if t.s in OPEN:
            e = match(ts, i)
            cur += ts[i:e + 1]; i = e + 1; continue
        if t.s == "<": angle += 1
        elif t.s == ">" and angle: angle -= 1
        elif t.s == ">>" and angle: angle = max(0, angle - 2)
        if t.s == "," and not angle:
            out.append(cur); cur = []
        else:
            cur.append(t)
        i += 1
    if cur: out.append(cur)
    return out
