#!/usr/bin/env python3
"""Writes verus/comparisons_core.rs: comparisons and hashes of terms and literals, in every form, as functions of their values."""
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
def w(*a): o.extend(a)
FORMS = [  # type, lifetime?, value, file, cmp, total order, hash
 ("BlankId", "", "blank", "blankid.rs", 1, 1, 1), ("BlankIdBuf", "", "blank", "blankid.rs", 1, 1, 1),
 ("LiteralType", "", "type", "literal/type/mod.rs", 1, 1, 1), ("LiteralTypeRef", "<'a>", "type", "literal/type/ref.rs", 1, 1, 1),
 ("CowLiteralType", "<'a>", "type", "literal/type/cow.rs", 1, 1, 1),
 ("Literal", "", "lit", "literal/mod.rs", 1, 1, 1), ("LiteralRef", "<'a>", "lit", "literal/ref.rs", 1, 1, 1), ("CowLiteral", "<'a>", "lit", "literal/cow.rs", 1, 1, 1),
 ("Term", "", "term", "term/mod.rs", 1, 1, 1), ("TermRef", "<'a>", "term", "term/ref.rs", 1, 1, 0),
 ("LocalTerm", "", "local", "term/local/mod.rs", 1, 1, 1), ("LocalTermRef", "<'a>", "local", "term/local/ref.rs", 1, 1, 0),
]
EQ = {"blank": "%s@ == %s@", "type": "type_eq(%s.v(), %s.v())", "lit": "lit_eq(%s.v(), %s.v())", "term": "term_eq(%s.v(), %s.v())", "local": "local_eq(%s.v(), %s.v())"}
CMP = {k: (v.replace("_eq", "_cmp") if k != "blank" else "str_cmp(%s@, %s@)") for k, v in EQ.items()}
HASH = {"blank": "str_hash(self@)", "type": "type_hash(self.v())", "lit": "lit_hash(self.v())", "term": "term_hash(self.v())", "local": "local_hash(self.v())"}
w("""// (generated by tools/mkcmp.py)
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub open spec fn type_eq(a: TypeV, b: TypeV) -> bool { match (a, b) { (TypeV::Any(x), TypeV::Any(y)) => iri_eq(x, y), (TypeV::Lang(x), TypeV::Lang(y)) => tag_eq(x, y), _ => false } }
pub open spec fn lit_eq(a: LitV, b: LitV) -> bool { a.value == b.value && type_eq(a.ty, b.ty) }
pub open spec fn term_eq(a: TermV, b: TermV) -> bool { match (a, b) { (TermV::Iri(x), TermV::Iri(y)) => iri_eq(x, y), (TermV::Lit(x), TermV::Lit(y)) => lit_eq(x, y), _ => false } }
pub open spec fn local_eq(a: LocalV, b: LocalV) -> bool { match (a, b) { (LocalV::Anon(x), LocalV::Anon(y)) => x == y, (LocalV::Named(x), LocalV::Named(y)) => term_eq(x, y), _ => false } }
pub open spec fn type_cmp(a: TypeV, b: TypeV) -> Ordering { match (a, b) { (TypeV::Any(x), TypeV::Any(y)) => iri_cmp(x, y), (TypeV::Lang(x), TypeV::Lang(y)) => tag_cmp(x, y),
    (TypeV::Any(_), TypeV::Lang(_)) => Ordering::Less, (TypeV::Lang(_), TypeV::Any(_)) => Ordering::Greater } }
pub open spec fn lit_cmp(a: LitV, b: LitV) -> Ordering { then(str_cmp(a.value, b.value), type_cmp(a.ty, b.ty)) }
pub open spec fn term_cmp(a: TermV, b: TermV) -> Ordering { match (a, b) { (TermV::Iri(x), TermV::Iri(y)) => iri_cmp(x, y), (TermV::Lit(x), TermV::Lit(y)) => lit_cmp(x, y),
    (TermV::Iri(_), TermV::Lit(_)) => Ordering::Less, (TermV::Lit(_), TermV::Iri(_)) => Ordering::Greater } }
pub open spec fn local_cmp(a: LocalV, b: LocalV) -> Ordering { match (a, b) { (LocalV::Anon(x), LocalV::Anon(y)) => str_cmp(x, y), (LocalV::Named(x), LocalV::Named(y)) => term_cmp(x, y),
    (LocalV::Anon(_), LocalV::Named(_)) => Ordering::Less, (LocalV::Named(_), LocalV::Anon(_)) => Ordering::Greater } }
// what is fed to a hasher
pub open spec fn type_hash(a: TypeV) -> Seq<Fed> { match a { TypeV::Any(x) => seq![Fed::Index(0)] + iri_hash(x), TypeV::Lang(x) => seq![Fed::Index(1)] + tag_hash(x) } }
pub open spec fn lit_hash(a: LitV) -> Seq<Fed> { str_hash(a.value) + type_hash(a.ty) }
pub open spec fn term_hash(a: TermV) -> Seq<Fed> { match a { TermV::Iri(x) => iri_hash(x), TermV::Lit(x) => lit_hash(x) } }
pub open spec fn local_hash(a: LocalV) -> Seq<Fed> { match a { LocalV::Anon(x) => str_hash(x), LocalV::Named(x) => term_hash(x) } }
""")
# the property: equality, order and hash agree, on values; every comparison below is the one of the values
w("""//@include comparisons_laws.rs
""")
def g(*ls): return "<'a>" if any(ls) else ""
for t, l, v, f, c, tot, h in FORMS:
    G = "impl" + g(l)
    w("%s PartialEqSpecImpl for %s%s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { %s } }" % (G, t, l, EQ[v] % ("self", "o")),
      "%s PartialEq for %s%s {" % (G, t, l), "//@derive %s | %s | PartialEq" % (f, t), "}", "%s Eq for %s%s { }" % (G, t, l))
    if c:
        w("%s PartialOrdSpecImpl for %s%s { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(%s) } }" % (G, t, l, CMP[v] % ("self", "o")),
          "%s PartialOrd for %s%s {" % (G, t, l), "//@derive %s | %s | PartialOrd" % (f, t), "}")
    if tot:
        w("%s OrdSpecImpl for %s%s { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { %s } }" % (G, t, l, CMP[v] % ("self", "o")),
          "%s Ord for %s%s {" % (G, t, l), "//@derive %s | %s | Ord" % (f, t), "}")
    if h:
        w("%s Hash for %s%s { open spec fn fed(&self) -> Seq<Fed> { %s }" % (G, t, l, HASH[v]), "//@derive %s | %s | Hash" % (f, t), "}")
def cross(f, owner, a, b, v, cmp=True, eq=None):
    ga = "<'a>" if "'a" in a + b else ""
    h = owner
    w("impl%s PartialEqSpecImpl<%s> for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &%s) -> bool { %s } }" % (ga, b, a, b, eq or EQ[v] % ("self", "o")),
      "impl%s PartialEq<%s> for %s {" % (ga, b, a), "//@fn %s | %s | eq" % (f, h), "//@  bare", "//@  ret r", "//@end", "}")
    if cmp:
        w("impl%s PartialOrdSpecImpl<%s> for %s { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &%s) -> Option<Ordering> { Some(%s) } }" % (ga, b, a, b, CMP[v] % ("self", "o")),
          "impl%s PartialOrd<%s> for %s {" % (ga, b, a), "//@fn %s | %s | partial_cmp" % (f, h.replace("PartialEq", "PartialOrd")), "//@  bare", "//@  ret r", "//@end", "}")
for own, ref, v, f, back in (("LiteralType", "LiteralTypeRef", "type", "literal/type/ref.rs", 1), ("Literal", "LiteralRef", "lit", "literal/ref.rs", 1),
                       ("Term", "TermRef", "term", "term/ref.rs", 0), ("LocalTerm", "LocalTermRef", "local", "term/local/ref.rs", 0)):
    cross(f, "impl PartialEq<%s> for %s<'_>" % (own, ref), ref + "<'a>", own, v)
    if back: cross(f, "impl<'a> PartialEq<%s<'a>> for %s" % (ref, own), own, ref + "<'a>", v)
w("""impl<'a> LiteralRef<'a> {
//@fn literal/ref.rs | impl equivalent::Equivalent<Literal> for LiteralRef<'_> | equivalent
//@  ret r
//@  spec ensures r == lit_eq(self.v(), $1.v())
//@end
}""")
B = "blankid.rs"
cross(B, "impl PartialEq<BlankId> for BlankIdBuf", "BlankIdBuf", "BlankId", "blank", False)
cross(B, "impl<'a> PartialEq<&'a BlankId> for BlankIdBuf", "BlankIdBuf", "&'a BlankId", "blank", False, "self@ == (**o)@")
cross(B, "impl PartialEq<BlankIdBuf> for &BlankId", "&BlankId", "BlankIdBuf", "blank", False, "(**self)@ == o@")
cross(B, "impl PartialEq<BlankIdBuf> for BlankId", "BlankId", "BlankIdBuf", "blank", False)
cross(B, "impl PartialEq<str> for BlankId", "BlankId", "str", "blank", False)
open(os.path.join(H, "verus/comparisons_core.rs"), "w").write("\n".join(o) + "\n")
