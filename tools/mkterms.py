#!/usr/bin/env python3
"""Writes verus/terms_core.rs: types of terms and literals, their values, and contracts of their conversions and accessors."""
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
def w(*a): o.extend(a)
def fn(file, owner, name, ens, req=None, *extra):
    o.append("//@fn %s | %s | %s" % (file, owner, name))
    o.append("//@  ret r")
    s = ("requires %s\n//@|   " % req if req else "") + "ensures " + ens
    o.append("//@  spec " + s)
    for e in extra: o.append("//@  " + e)
    o.append("//@end")
def block(head, *fns):
    o.append(head + " {")
    for f in fns: f()
    o.append("}")
L = lambda *a: (lambda: fn(*a))

w("""// (generated by tools/mkterms.py)
// ---- the values terms denote, whatever the form holding them
pub enum TypeV { Any(Seq<char>), Lang(Seq<char>) }
pub struct LitV { pub value: Seq<char>, pub ty: TypeV }
pub enum TermV { Iri(Seq<char>), Lit(LitV) }
pub enum LocalV { Anon(Seq<char>), Named(TermV) }
pub enum IdV { Blank(Seq<char>), Iri(Seq<char>) }
""")
BLANK = """// ---- blank node identifiers: contracts discharged in unit blankid, for valid identifiers
pub struct BlankId(pub str);
pub struct BlankIdBuf(pub String);
impl BlankId { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl BlankIdBuf { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl Deref for BlankIdBuf { type Target = BlankId;
    #[verifier::external_body]
    fn deref(&self) -> (r: &BlankId) ensures r@ == self@ { unimplemented!() } }
impl Borrow<BlankId> for BlankIdBuf {
    #[verifier::external_body]
    fn borrow(&self) -> &BlankId { unimplemented!() } }
impl ToOwned for BlankId { type Owned = BlankIdBuf;
    #[verifier::external_body]
    fn to_owned(&self) -> (r: BlankIdBuf) ensures r@ == self@ { unimplemented!() } }
"""
lt, ltr, ltc = "literal/type/mod.rs", "literal/type/ref.rs", "literal/type/cow.rs"
li, lir, lic = "literal/mod.rs", "literal/ref.rs", "literal/cow.rs"
te, ter, tec = "term/mod.rs", "term/ref.rs", "term/cow.rs"
lo, lor, loc = "term/local/mod.rs", "term/local/ref.rs", "term/local/cow.rs"
w("//@item %s | LiteralType" % lt, "//@item %s | LiteralTypeRef | #[derive(Clone, Copy)]" % ltr, "//@item %s | CowLiteralType" % ltc)
w("//@item %s | Literal" % li, "//@item %s | LiteralRef | #[derive(Clone, Copy)]" % lir, "//@item %s | CowLiteral" % lic)
w("//@item %s | Term" % te, "//@item %s | TermRef | #[derive(Clone, Copy)]" % ter, "//@item %s | CowTerm" % tec)
w("//@item %s | LocalTerm" % lo, "//@item %s | LocalTermRef | #[derive(Clone, Copy)]" % lor, "//@item %s | CowLocalTerm" % loc)
w("//@item id/mod.rs | Id", "//@item id/ref.rs | IdRef | #[derive(Clone, Copy)]", "//@item id/cow.rs | CowId")
def val(head, ty, body): w("impl%s { pub open spec fn v(&self) -> %s { %s } }" % (head, ty, body))
val(" LiteralType", "TypeV", "match *self { LiteralType::Any(i) => TypeV::Any(i@), LiteralType::LangString(t) => TypeV::Lang(t@) }")
val("<'a> LiteralTypeRef<'a>", "TypeV", "match *self { LiteralTypeRef::Any(i) => TypeV::Any(i@), LiteralTypeRef::LangString(t) => TypeV::Lang(t@) }")
val("<'a> CowLiteralType<'a>", "TypeV", "match *self { CowLiteralType::Any(i) => TypeV::Any(cow_iri(i)), CowLiteralType::LangString(t) => TypeV::Lang(cow_tag(t)) }")
val(" Literal", "LitV", "LitV { value: self.value@, ty: self.type_.v() }")
val("<'a> LiteralRef<'a>", "LitV", "LitV { value: self.value@, ty: self.type_.v() }")
val("<'a> CowLiteral<'a>", "LitV", "LitV { value: cow_str(self.value), ty: self.type_.v() }")
val(" Term", "TermV", "match *self { Term::Iri(i) => TermV::Iri(i@), Term::Literal(l) => TermV::Lit(l.v()) }")
val("<'a> TermRef<'a>", "TermV", "match *self { TermRef::Iri(i) => TermV::Iri(i@), TermRef::Literal(l) => TermV::Lit(l.v()) }")
val("<'a> CowTerm<'a>", "TermV", "match *self { CowTerm::Iri(i) => TermV::Iri(cow_iri(i)), CowTerm::Literal(l) => TermV::Lit(l.v()) }")
val(" LocalTerm", "LocalV", "match *self { LocalTerm::Anonymous(b) => LocalV::Anon(b@), LocalTerm::Named(t) => LocalV::Named(t.v()) }")
val("<'a> LocalTermRef<'a>", "LocalV", "match *self { LocalTermRef::Anonymous(b) => LocalV::Anon(b@), LocalTermRef::Named(t) => LocalV::Named(t.v()) }")
val("<'a> CowLocalTerm<'a>", "LocalV", "match *self { CowLocalTerm::Anonymous(b) => LocalV::Anon(cow_blank(b)), CowLocalTerm::Named(t) => LocalV::Named(t.v()) }")
val(" Id", "IdV", "match *self { Id::BlankId(b) => IdV::Blank(b@), Id::Iri(i) => IdV::Iri(i@) }")
val("<'a> IdRef<'a>", "IdV", "match *self { IdRef::BlankId(b) => IdV::Blank(b@), IdRef::Iri(i) => IdV::Iri(i@) }")
val("<'a> CowId<'a>", "IdV", "match *self { CowId::BlankId(b) => IdV::Blank(cow_blank(b)), CowId::Iri(i) => IdV::Iri(cow_iri(i)) }")
w("""// the value held by an optional part
pub open spec fn oiri(o: Option<&Iri>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn otag(o: Option<&LangTag>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn oblank(o: Option<&BlankId>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn olit(o: Option<LiteralRef>) -> Option<LitV> { match o { Some(x) => Some(x.v()), None => None } }
impl TypeV {
    pub open spec fn tag(self) -> Option<Seq<char>> { match self { TypeV::Lang(t) => Some(t), TypeV::Any(_) => None } }
    pub open spec fn is_iri(self, i: Seq<char>) -> bool { match self { TypeV::Any(j) => iri_eq(j, i), TypeV::Lang(_) => false } }
}
impl TermV {
    pub open spec fn iri(self) -> Option<Seq<char>> { match self { TermV::Iri(t) => Some(t), TermV::Lit(_) => None } }
    pub open spec fn lit(self) -> Option<LitV> { match self { TermV::Lit(t) => Some(t), TermV::Iri(_) => None } }
}
impl LocalV {
    pub open spec fn blank(self) -> Option<Seq<char>> { match self { LocalV::Anon(t) => Some(t), LocalV::Named(_) => None } }
    pub open spec fn iri(self) -> Option<Seq<char>> { match self { LocalV::Named(t) => t.iri(), LocalV::Anon(_) => None } }
    pub open spec fn lit(self) -> Option<LitV> { match self { LocalV::Named(t) => t.lit(), LocalV::Anon(_) => None } }
}
// the datatype of plain strings; its text is read from schema.rs
pub const XSD_STRING_TEXT: &'static str = @const:lib.rs:XSD_STRING@;
pub open spec fn xsd_string() -> Seq<char> { XSD_STRING_TEXT@ }
#[verifier::external_body]
pub exec const XSD_STRING: &'static Iri ensures XSD_STRING@ == xsd_string() { unsafe { core::mem::transmute(XSD_STRING_TEXT) } }
""")
types, o[:] = o[:], []
w("// (generated by tools/mkterms.py)")
same = "r.v() == self.v()"
def ty(file, owner):
    return [L(file, owner, "is_lang_string", "r == (self.v() is Lang)"),
            L(file, owner, "lang_tag", "otag(r) == self.v().tag()"),
            L(file, owner, "is_xsd_string", "r == self.v().is_iri(xsd_string())"),
            L(file, owner, "is_iri", "r == self.v().is_iri($1@)")]
block("impl LiteralType", *ty(lt, "impl LiteralType"), *[L(lt, "impl LiteralType", n, same) for n in ("as_ref", "as_cow", "into_cow")])
block("impl<'a> LiteralTypeRef<'a>", *ty(ltr, "impl<'a> LiteralTypeRef<'a>"), L(ltr, "impl LiteralTypeRef<'_>", "into_owned", same))
block("impl<'a> CowLiteralType<'a>", *[L(ltc, "impl CowLiteralType<'_>", n, same) for n in ("as_ref", "into_owned")])
def frm(file, src, dst, val, gen="<'a>", owner=None):
    owner = owner or "impl%s From<%s> for %s" % (gen, src, dst)
    d, s = dst.replace("<'_>", "<'a>"), src
    if "'a" not in s and "'a" not in d: g = ""
    else: g = "<'a>"
    w("impl%s FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: %s) -> Self; }" % (g, s, d, s))
    block("impl%s From<%s> for %s" % (g, s, d), L(file, owner, "from", val, None, "bare"))
frm(ltc, "CowLiteralType<'a>", "LiteralType", "r.v() == $0.v()")
frm(ltc, "LiteralTypeRef<'a>", "CowLiteralType<'a>", "r.v() == $0.v()")
frm(ltc, "&'a Iri", "CowLiteralType<'a>", "r.v() == TypeV::Any($0@)")
frm(ltc, "IriBuf", "CowLiteralType<'_>", "r.v() == TypeV::Any($0@)", "")
frm(ltc, "Cow<'a, Iri>", "CowLiteralType<'a>", "r.v() == TypeV::Any(cow_iri($0))")
frm(ltc, "&'a LangTag", "CowLiteralType<'a>", "r.v() == TypeV::Lang($0@)")
frm(ltc, "LangTagBuf", "CowLiteralType<'_>", "r.v() == TypeV::Lang($0@)", "")
frm(ltc, "Cow<'a, LangTag>", "CowLiteralType<'a>", "r.v() == TypeV::Lang(cow_tag($0))")
O = "impl Literal"
block(O, L(li, O, "new", "exists|a: String, b: LiteralType| r == (Literal { value: a, type_: b }) && call_ensures(Into::<String>::into, ($0,), a) && call_ensures(Into::<LiteralType>::into, ($1,), b)"),
  L(li, O, "as_type", "*r == self.type_"), L(li, O, "into_type", "r == self.type_"),
  L(li, O, "as_type_mut", "*r == old(self).type_, final(self).type_ == *final(r), final(self).value == old(self).value"),
  L(li, O, "as_value", "*r == self.value"), L(li, O, "into_value", "r == self.value"),
  L(li, O, "as_value_mut", "*r == old(self).value, final(self).value == *final(r), final(self).type_ == old(self).type_"),
  L(li, O, "into_parts", "r == (self.value, self.type_)"),
  L(li, O, "as_str", "r@ == self.v().value"),
  L(li, O, "as_bytes", "r@ == encode_utf8(self.v().value)", None, "proof broadcast use vstd::string::group_string_axioms;"),
  L(li, "impl Borrow<str> for Literal", "borrow", "r@ == self.v().value", None, "as borrow_str"), L(li, "impl AsRef<str> for Literal", "as_ref", "r@ == self.v().value", None, "as as_ref_str"),
  L(li, O, "is_lang_string", "r == (self.v().ty is Lang)"), L(li, O, "lang_tag", "otag(r) == self.v().ty.tag()"),
  *[L(li, O, n, same) for n in ("as_ref", "as_cow", "into_cow")])
O = "impl<'a> LiteralRef<'a>"
block(O, L(lir, O, "new", "r == (LiteralRef { value: $0, type_: $1 })"),
  L(lir, O, "as_type", "r == self.type_"), L(lir, O, "into_type", "r == self.type_"),
  L(lir, O, "as_type_mut", "*r == old(self).type_, final(self).type_ == *final(r), final(self).value == old(self).value"),
  L(lir, O, "as_value", "r == self.value"), L(lir, O, "into_value", "r == self.value"),
  L(lir, O, "into_parts", "r == (self.value, self.type_)"),
  L(lir, O, "as_str", "r@ == self.v().value"),
  L(lir, O, "as_bytes", "r@ == encode_utf8(self.v().value)", None, "proof broadcast use vstd::string::group_string_axioms;"),
  L(lir, "impl Borrow<str> for LiteralRef<'_>", "borrow", "r@ == self.v().value", None, "as borrow_str"), L(lir, "impl AsRef<str> for LiteralRef<'_>", "as_ref", "r@ == self.v().value", None, "as as_ref_str"),
  L(lir, O, "is_lang_string", "r == (self.v().ty is Lang)"), L(lir, O, "lang_tag", "otag(r) == self.v().ty.tag()"),
  L(lir, O, "into_cow", same),
  L(lir, "impl LiteralRef<'_>", "to_owned", same), L(lir, "impl LiteralRef<'_>", "cloned", same))
O = "impl<'a> CowLiteral<'a>"
block(O, L(lic, O, "new", "exists|a: Cow<'a, str>, b: CowLiteralType<'a>| r == (CowLiteral { value: a, type_: b }) && call_ensures(Into::<Cow<'a, str>>::into, ($0,), a) && call_ensures(Into::<CowLiteralType<'a>>::into, ($1,), b)"),
  L(lic, O, "as_ref", same), L(lic, O, "into_owned", same))
frm(lic, "&'a Literal", "CowLiteral<'a>", "r.v() == $0.v()")
O = "impl Term"
block(O, L(te, O, "is_iri", "r == (self.v() is Iri)"), L(te, O, "is_literal", "r == (self.v() is Lit)"),
  L(te, O, "as_iri", "oiri(r) == self.v().iri()"), L(te, O, "as_literal", "olit(r) == self.v().lit()"),
  L(te, O, "into_literal", "r == (match self { Term::Literal(l) => Some(l), Term::Iri(_) => None })"),
  L(te, O, "try_into_literal", "r == (match self { Term::Literal(l) => Ok(l), Term::Iri(i) => Err(i) })"),
  L(te, O, "try_into_iri", "r == (match self { Term::Iri(i) => Ok(i), Term::Literal(_) => Err(self) })"),
  L(te, O, "into_iri", "r == (match self { Term::Iri(i) => Some(i), Term::Literal(_) => None })"),
  *[L(te, O, n, same) for n in ("as_ref", "as_cow", "into_cow")])
block("impl<'a> TermRef<'a>", L(ter, "impl TermRef<'_>", "to_owned", same))
block("impl<'a> CowTerm<'a>", L(tec, "impl CowTerm<'_>", "into_owned", same))
frm(tec, "Term", "CowTerm<'_>", "r.v() == $0.v()", "")
O = "impl LocalTerm"
block(O, L(lo, O, "iri", "r == LocalTerm::Named(Term::Iri($0))"), L(lo, O, "literal", "r == LocalTerm::Named(Term::Literal($0))"),
  L(lo, O, "is_anonymous", "r == (self.v() is Anon)"), L(lo, O, "is_blank_id", "r == (self.v() is Anon)"),
  L(lo, O, "as_anonymous", "oblank(r) == self.v().blank()"), L(lo, O, "as_blank_id", "oblank(r) == self.v().blank()"),
  L(lo, O, "as_iri", "oiri(r) == self.v().iri()"), L(lo, O, "as_literal", "olit(r) == self.v().lit()"),
  *[L(lo, O, n, same) for n in ("as_ref", "as_cow", "into_cow")])
block("impl<'a> LocalTermRef<'a>", L(lor, "impl LocalTermRef<'_>", "to_owned", same))
frm(loc, "LocalTerm", "CowLocalTerm<'_>", "r.v() == $0.v()", "")
frm(lo, "IriBuf", "LocalTerm", "r == LocalTerm::Named(Term::Iri($0))", "")
frm(lo, "Literal", "LocalTerm", "r == LocalTerm::Named(Term::Literal($0))", "")
frm(lo, "Term", "LocalTerm", "r == LocalTerm::Named($0)", "")
frm(lo, "BlankIdBuf", "LocalTerm", "r == LocalTerm::Anonymous($0)", "")
O = "impl Id"
block(O, L("id/mod.rs", O, "as_iri", "oiri(r) == (match self.v() { IdV::Iri(i) => Some(i), IdV::Blank(_) => None })"), L("id/mod.rs", O, "as_ref", same), L("id/mod.rs", O, "as_cow", same))
block("impl<'a> IdRef<'a>", L("id/ref.rs", "impl IdRef<'_>", "to_owned", same), L("id/ref.rs", "impl IdRef<'_>", "into_owned", same))
open(os.path.join(H, "verus/terms_blank.rs"), "w").write(BLANK)
open(os.path.join(H, "verus/terms_types.rs"), "w").write("\n".join(types) + "\n")
open(os.path.join(H, "verus/terms_core.rs"), "w").write("\n".join(o) + "\n")
