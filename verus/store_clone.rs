// ---- clones: an independent store with the same contents
impl Clone for usize {
    #[verifier::external_body]
    fn clone(&self) -> (r: usize) { unimplemented!() } }
impl<T: Clone> Slab<T> {
    // (slab derives it: the entries are cloned, vacancies kept)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl<S: Clone, P: Clone, O: Clone@G@> Clone for @T@<S, P, O@g@> {
//@derive @tf@ | @T@ | Clone
}
@SET@
impl<R: Clone> Clone for Resource<R> {
//@derive @F@ | Resource | Clone
}
pub fn raw_iter<'a, T>(t: &'a RawBTree<T>) -> (r: RawIter<'a, T>) ensures r.rest() == t@ { t.iter() }
//@fn utils.rs | | clone_btree
//@ ret r
//@ into 0 raw_iter
//@ closure 0 (&T, &T) -> o: Ordering ensures o == Ordering::Less
//@ loop 0 invariant $0@ == clone@ + __it0.rest()
//@| decreases __it0.rest().len()
//@ body 0 let ghost before = clone@; reveal(searchable); reveal(added); reveal(swapped);
//@ spec ensures r@ == $0@
//@end
impl<R: Ord + Clone> @S@<R> {
//@derive @F@ | @S@ | Clone | ensures self.base() ==> r.base(), self.wf() ==> r.wf(), r.list() == self.list(), r.rlist() == self.rlist(), forall|u: @T@<R>| #[trigger] r.has(u) == self.has(u)
}
