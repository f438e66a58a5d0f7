// ---- what is assumed of iref: an IRI reference holds none of the characters N-Triples excludes
pub open spec fn iri_char(c: char) -> bool {
    !('\x00' <= c && c <= '\x20') && c != '<' && c != '>' && c != '"' && c != '{' && c != '}' && c != '|' && c != '^' && c != '`' && c != '\\'
}
pub open spec fn iri_legal(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> iri_char(#[trigger] s[i]) }
#[verifier::external_body]
pub struct IriRef { v: str }
#[verifier::external_body]
pub struct IriRefBuf { v: String }
impl IriRef {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@, iri_legal(r@) { unimplemented!() }
}
impl IriRefBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_iri_ref(&self) -> (r: &IriRef) ensures r@ == self@ { unimplemented!() }
}
impl Iri {
    #[verifier::external_body]
    pub fn as_iri_ref(&self) -> (r: &IriRef) ensures r@ == self@ { unimplemented!() }
}
impl IriBuf {
    #[verifier::external_body]
    pub fn as_iri_ref(&self) -> (r: &IriRef) ensures r@ == self@ { unimplemented!() }
}
impl Shown for Iri { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for IriBuf { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
pub mod iref { pub use super::{Iri, IriBuf, IriRef, IriRefBuf}; }
// contextual: a value beside its context
pub struct Contextual<T, C>(pub T, pub C);
pub mod contextual { pub use super::Contextual; }
impl Formatter {
    // {:#04x} of a number: never reached, since no IRI reference holds an excluded character
    #[verifier::external_body]
    pub fn write_arg_alt04x<T: Shown + ?Sized>(&mut self, x: &T) -> (r: Result<(), FmtError>) { unimplemented!() }
}
pub assume_specification [<u32 as From<char>>::from] (c: char) -> (r: u32);
#[verifier::prophetic]
pub open spec fn remaining<C: Iterator<Item = char>>(c: C) -> Seq<char> { IteratorSpec::remaining(&c) }
#[verifier::prophetic]
pub open spec fn lawful<C: Iterator<Item = char>>(c: C) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&c) }
