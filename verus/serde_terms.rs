use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::Deref;
use vstd::std_specs::convert::FromSpecImpl;
verus! {
global size_of usize == 8;
//@include text_std.rs
//@include text_deps.rs
//@include terms_blank.rs
//@include terms_types.rs
//@include decimal.rs
//@include label.rs
//@include serde_std.rs KIND=`str`
pub struct InvalidBlankId<T>(pub T);
//@trust blankid
impl BlankIdBuf {
//@fn blankid.rs | impl BlankIdBuf | new_unchecked
//@  ret r
//@  spec requires label($0@)
//@|   ensures r@ == $0@
//@end
//@fn blankid.rs | impl BlankIdBuf | new
//@  ret r
//@  spec ensures label($0@) ==> r is Ok && r->Ok_0@ == $0@, !label($0@) ==> r is Err && r->Err_0.0@ == $0@
//@end
}
//@endtrust
// ---- what serde, iref and langtag do: text is written as it is; read, it is an IRI or a tag or nothing
pub uninterp spec fn is_iri(s: Seq<char>) -> bool;
pub uninterp spec fn is_tag(s: Seq<char>) -> bool;
// an IRI starts with a scheme, which starts with a letter (RFC 3987)
pub axiom fn scheme(s: Seq<char>) requires is_iri(s) ensures s.len() > 0, s[0] != '_';
impl serde::Serialize for str { open spec fn doc(&self) -> Doc { Doc::Str(self@) } open spec fn valid(&self) -> bool { true } }
impl serde::Serialize for String { open spec fn doc(&self) -> Doc { Doc::Str(self@) } open spec fn valid(&self) -> bool { true } }
impl serde::Serialize for Iri { open spec fn doc(&self) -> Doc { Doc::Str(self@) } open spec fn valid(&self) -> bool { is_iri(self@) } }
impl serde::Serialize for IriBuf { open spec fn doc(&self) -> Doc { Doc::Str(self@) } open spec fn valid(&self) -> bool { is_iri(self@) } }
impl serde::Serialize for LangTag { open spec fn doc(&self) -> Doc { Doc::Str(self@) } open spec fn valid(&self) -> bool { is_tag(self@) } }
impl serde::Serialize for LangTagBuf { open spec fn doc(&self) -> Doc { Doc::Str(self@) } open spec fn valid(&self) -> bool { is_tag(self@) } }
impl<'a> serde::Serialize for Cow<'a, str> { open spec fn doc(&self) -> Doc { Doc::Str(cow_str(*self)) } open spec fn valid(&self) -> bool { true } }
impl<'a> serde::Serialize for Cow<'a, Iri> { open spec fn doc(&self) -> Doc { Doc::Str(cow_iri(*self)) } open spec fn valid(&self) -> bool { is_iri(cow_iri(*self)) } }
impl<'a> serde::Serialize for Cow<'a, LangTag> { open spec fn doc(&self) -> Doc { Doc::Str(cow_tag(*self)) } open spec fn valid(&self) -> bool { is_tag(cow_tag(*self)) } }
impl<'de> serde::Deserialize<'de> for String {
    open spec fn reads(d: Doc, v: Self) -> bool { d is Str && v@ == d->Str_0 }
    open spec fn readable(d: Doc) -> bool { d is Str }
}
impl<'de> serde::Deserialize<'de> for IriBuf {
    open spec fn reads(d: Doc, v: Self) -> bool { d is Str && is_iri(d->Str_0) && v@ == d->Str_0 }
    open spec fn readable(d: Doc) -> bool { d is Str && is_iri(d->Str_0) }
}
impl<'de> serde::Deserialize<'de> for LangTagBuf {
    open spec fn reads(d: Doc, v: Self) -> bool { d is Str && is_tag(d->Str_0) && v@ == d->Str_0 }
    open spec fn readable(d: Doc) -> bool { d is Str && is_tag(d->Str_0) }
}
// ---- blank node identifiers: a text that is not one is not read
//@serde blankid.rs | BlankIdBuf | label(self@)
impl<'de> serde::Deserialize<'de> for BlankIdBuf {
    open spec fn reads(d: Doc, v: Self) -> bool { d is Str && label(d->Str_0) && v@ == d->Str_0 }
    open spec fn readable(d: Doc) -> bool { d is Str && label(d->Str_0) }
}
//@item blankid.rs | Visitor
impl<'de> serde::de::Visitor<'de> for Visitor {
    type Value = BlankIdBuf;
    open spec fn gives_str(s: Seq<char>, v: BlankIdBuf) -> bool { label(s) && v@ == s }
    open spec fn takes_str(s: Seq<char>) -> bool { label(s) }
//@fn blankid.rs | impl<'de> serde::de::Visitor<'de> for Visitor | visit_string
//@  bare
//@  ret r
//@  closure 0 (InvalidBlankId<String>) -> o: E
//@end
//@fn blankid.rs | impl<'de> serde::de::Visitor<'de> for Visitor | visit_str
//@  bare
//@  ret r
//@end
//@fn blankid.rs | impl<'de> serde::de::Visitor<'de> for Visitor | visit_borrowed_str
//@  bare
//@  ret r
//@end
}
impl<'de> BlankIdBuf {
//@fn blankid.rs | impl<'de> serde::Deserialize<'de> for BlankIdBuf | deserialize
//@  ret r
//@  spec ensures r matches Ok(v) ==> <Self as serde::Deserialize<'de>>::reads($0.doc(), v),
//@|     $0.faithful() && <Self as serde::Deserialize<'de>>::readable($0.doc()) ==> r is Ok
//@end
}
// ---- literals and terms
//@serde literal/type/mod.rs | LiteralType
//@serde literal/mod.rs | Literal
//@serde term/mod.rs | Term
//@serde term/local/mod.rs | LocalTerm
//@serde literal/type/ref.rs | LiteralTypeRef
//@serde literal/ref.rs | LiteralRef
//@serde literal/type/cow.rs | CowLiteralType
//@serde literal/cow.rs | CowLiteral
// C23: what a value's document reads as is equal to it, and reading it succeeds
pub proof fn blank_round<'de>(a: BlankIdBuf, b: BlankIdBuf)
    requires serde::Serialize::valid(&a)
    ensures <BlankIdBuf as serde::Deserialize>::readable(serde::Serialize::doc(&a)), <BlankIdBuf as serde::Deserialize>::reads(serde::Serialize::doc(&a), b) ==> a@ == b@
{}
pub proof fn type_round<'de>(a: LiteralType, b: LiteralType)
    requires serde::Serialize::valid(&a)
    ensures <LiteralType as serde::Deserialize>::readable(serde::Serialize::doc(&a)), <LiteralType as serde::Deserialize>::reads(serde::Serialize::doc(&a), b) ==> a.v() == b.v()
{}
pub proof fn literal_round<'de>(a: Literal, b: Literal)
    requires serde::Serialize::valid(&a)
    ensures <Literal as serde::Deserialize>::readable(serde::Serialize::doc(&a)), <Literal as serde::Deserialize>::reads(serde::Serialize::doc(&a), b) ==> a.v() == b.v()
{ type_round(a.type_, b.type_); }
pub proof fn term_round<'de>(a: Term, b: Term)
    requires serde::Serialize::valid(&a)
    ensures <Term as serde::Deserialize>::readable(serde::Serialize::doc(&a)), <Term as serde::Deserialize>::reads(serde::Serialize::doc(&a), b) ==> a.v() == b.v()
{ match (a, b) { (Term::Literal(x), Term::Literal(y)) => literal_round(x, y), (Term::Literal(x), _) => literal_round(x, x), _ => {} } }
pub proof fn local_round<'de>(a: LocalTerm, b: LocalTerm)
    requires serde::Serialize::valid(&a)
    ensures <LocalTerm as serde::Deserialize>::readable(serde::Serialize::doc(&a)), <LocalTerm as serde::Deserialize>::reads(serde::Serialize::doc(&a), b) ==> a.v() == b.v()
{
    match a { LocalTerm::Named(Term::Iri(i)) => scheme(i@), _ => {} }
    match (a, b) { (LocalTerm::Named(x), LocalTerm::Named(y)) => term_round(x, y), (LocalTerm::Named(x), _) => term_round(x, x), _ => {} }
}
// the forms that can only be written are written as the owned form is
pub proof fn same_doc(a: Literal, r: LiteralRef, c: CowLiteral)
    ensures a.v() == r.v() ==> serde::Serialize::doc(&a) == serde::Serialize::doc(&r), a.v() == c.v() ==> serde::Serialize::doc(&a) == serde::Serialize::doc(&c)
{}
pub proof fn same_type_doc(a: LiteralType, r: LiteralTypeRef, c: CowLiteralType)
    ensures a.v() == r.v() ==> serde::Serialize::doc(&a) == serde::Serialize::doc(&r), a.v() == c.v() ==> serde::Serialize::doc(&a) == serde::Serialize::doc(&c)
{}
// ---- statements and patterns of any component types: they round-trip, up to any notion of equality their components round-trip up to
//@item triple.rs | Triple | `S = LocalTerm` => `S`
//@item quad.rs | Quad | `S = LocalTerm` => `S`
//@item pattern/resource_or_variable.rs | ResourceOrVar
//@serde triple.rs | Triple
//@serde quad.rs | Quad
//@serde pattern/resource_or_variable.rs | ResourceOrVar
pub open spec fn back<'de, T: serde::Serialize + serde::Deserialize<'de>>(a: T, eq: spec_fn(T, T) -> bool) -> bool {
    T::readable(serde::Serialize::doc(&a)) && forall|b: T| #[trigger] T::reads(serde::Serialize::doc(&a), b) ==> eq(a, b)
}
pub open spec fn rounds<'de, T: serde::Serialize + serde::Deserialize<'de>>(eq: spec_fn(T, T) -> bool) -> bool {
    forall|a: T| serde::Serialize::valid(&a) ==> #[trigger] back(a, eq)
}
pub proof fn triple_rounds<'de, S: serde::Serialize + serde::Deserialize<'de>, P: serde::Serialize + serde::Deserialize<'de>, O: serde::Serialize + serde::Deserialize<'de>>(a: Triple<S, P, O>, s: spec_fn(S, S) -> bool, p: spec_fn(P, P) -> bool, o: spec_fn(O, O) -> bool)
    requires serde::Serialize::valid(&a), rounds(s), rounds(p), rounds(o)
    ensures back(a, |a: Triple<S, P, O>, b: Triple<S, P, O>| s(a.0, b.0) && p(a.1, b.1) && o(a.2, b.2))
{ assert(back(a.0, s) && back(a.1, p) && back(a.2, o)); }
pub open spec fn same_graph<G>(a: Option<G>, b: Option<G>, eq: spec_fn(G, G) -> bool) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => eq(a, b), _ => false } }
pub proof fn quad_rounds<'de, S: serde::Serialize + serde::Deserialize<'de>, P: serde::Serialize + serde::Deserialize<'de>, O: serde::Serialize + serde::Deserialize<'de>, G: serde::Serialize + serde::Deserialize<'de>>(a: Quad<S, P, O, G>, s: spec_fn(S, S) -> bool, p: spec_fn(P, P) -> bool, o: spec_fn(O, O) -> bool, g: spec_fn(G, G) -> bool)
    requires serde::Serialize::valid(&a), rounds(s), rounds(p), rounds(o), rounds(g)
    ensures back(a, |a: Quad<S, P, O, G>, b: Quad<S, P, O, G>| s(a.0, b.0) && p(a.1, b.1) && o(a.2, b.2) && same_graph(a.3, b.3, g))
{ assert(back(a.0, s) && back(a.1, p) && back(a.2, o)); if a.3 is Some { assert(back(a.3->0, g)); } }
pub open spec fn same_role<T, X>(a: ResourceOrVar<T, X>, b: ResourceOrVar<T, X>, t: spec_fn(T, T) -> bool, x: spec_fn(X, X) -> bool) -> bool {
    match (a, b) { (ResourceOrVar::Resource(a), ResourceOrVar::Resource(b)) => t(a, b), (ResourceOrVar::Var(a), ResourceOrVar::Var(b)) => x(a, b), _ => false }
}
pub proof fn role_rounds<'de, T: serde::Serialize + serde::Deserialize<'de>, X: serde::Serialize + serde::Deserialize<'de>>(a: ResourceOrVar<T, X>, t: spec_fn(T, T) -> bool, x: spec_fn(X, X) -> bool)
    requires serde::Serialize::valid(&a), rounds(t), rounds(x)
    ensures back(a, |a: ResourceOrVar<T, X>, b: ResourceOrVar<T, X>| same_role(a, b, t, x))
{ match a { ResourceOrVar::Resource(r) => assert(back(r, t)), ResourceOrVar::Var(v) => assert(back(v, x)) } }
}
