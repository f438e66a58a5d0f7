// ---- iteration. Stand-ins for iterators of dependencies: what is left to yield is a sequence.
pub open spec fn step<A>(before: Seq<A>, after: Seq<A>, r: Option<A>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r == Some(before[0]) && after == before.skip(1) }
}
pub open spec fn stepr<A>(before: Seq<A>, after: Seq<A>, r: Option<&A>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r is Some && *r->0 == before[0] && after == before.skip(1) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RawIter<'a, T> { v: &'a Vec<T> }
impl<'a, T> RawIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>) ensures stepr(old(self).rest(), final(self).rest(), r) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RawIntoIter<T> { v: Vec<T> }
impl<T> RawIntoIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures step(old(self).rest(), final(self).rest(), r) { unimplemented!() }
}
impl<T> RawBTree<T> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: RawIter<'_, T>) ensures r.rest() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: RawIntoIter<T>) ensures r.rest() == self@ { unimplemented!() }
}
// core::iter::Iterator / IntoIterator, for the arguments of extend and from_iter: a finite iterator.
pub trait Iterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>) ensures step(old(self).rest(), final(self).rest(), r);
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter) ensures r.rest() == self.items();
}
