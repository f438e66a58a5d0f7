// ---- iteration: what is left to yield is a sequence
pub open spec fn step<A>(before: Seq<A>, after: Seq<A>, r: Option<A>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r == Some(before[0]) && after == before.skip(1) }
}
pub trait Iterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>) ensures step(old(self).rest(), final(self).rest(), r);
}
pub open spec fn opt_seq<A>(o: Option<A>) -> Seq<A> { match o { Some(x) => seq![x], None => Seq::empty() } }
// the iterator types of an interpretation (associated types with a lifetime, which Verus does not read): one opaque type
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AnyIter<T> { t: Vec<T> }
impl<T> Iterator for AnyIter<T> {
    type Item = T;
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
// Option::into_iter
pub trait IntoOptIter<T>: Sized { spec fn here(self) -> Option<T>; fn into_opt_iter(self) -> (r: AnyIter<T>) ensures r.rest() == opt_seq(self.here()); }
impl<T> IntoOptIter<T> for Option<T> { open spec fn here(self) -> Option<T> { self }
    #[verifier::external_body]
    fn into_opt_iter(self) -> (r: AnyIter<T>) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { t: std::cell::RefCell<T> }
// ---- values of what iterators yield
pub open spec fn cow_iris<'a>(s: Seq<Cow<'a, Iri>>) -> Seq<Seq<char>> { s.map_values(|x: Cow<'a, Iri>| cow_iri(x)) }
pub open spec fn cow_blanks<'a>(s: Seq<Cow<'a, BlankId>>) -> Seq<Seq<char>> { s.map_values(|x: Cow<'a, BlankId>| cow_blank(x)) }
pub open spec fn cow_lits<'a>(s: Seq<CowLiteral<'a>>) -> Seq<LitV> { s.map_values(|x: CowLiteral<'a>| x.v()) }
pub open spec fn term_vs<'a>(s: Seq<CowTerm<'a>>) -> Seq<TermV> { s.map_values(|x: CowTerm<'a>| x.v()) }
pub open spec fn local_vs<'a>(s: Seq<CowLocalTerm<'a>>) -> Seq<LocalV> { s.map_values(|x: CowLocalTerm<'a>| x.v()) }
pub broadcast proof fn map_skip<A, B>(s: Seq<A>, f: spec_fn(A) -> B) requires s.len() > 0 ensures #[trigger] s.skip(1).map_values(f) == s.map_values(f).skip(1) { assert(s.skip(1).map_values(f) =~= s.map_values(f).skip(1)); }
pub broadcast proof fn add_skip<A>(s: Seq<A>, t: Seq<A>) requires s.len() > 0 ensures #[trigger] (s + t).skip(1) == s.skip(1) + t { assert((s + t).skip(1) =~= s.skip(1) + t); }
pub broadcast proof fn add_empty<A>(s: Seq<A>, t: Seq<A>) requires s.len() == 0 ensures #[trigger] (s + t) == t { assert((s + t) =~= t); }
