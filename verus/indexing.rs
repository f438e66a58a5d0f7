// ---- making an indexed store out of a non-indexed one (@F@)
// slab::IntoIter, mapped and collected: the entries keep their keys when the function keeps them
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SlabIntoIter<T> { v: Vec<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(F)]
pub struct SlabMap<T, F> { v: Vec<T>, f: F }
impl<T> Slab<T> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: SlabIntoIter<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T> SlabIntoIter<T> {
    pub uninterp spec fn view(&self) -> Map<usize, T>;
    #[verifier::external_body]
    pub fn map<U, F: Fn((usize, T)) -> (usize, U)>(self, f: F) -> (r: SlabMap<T, F>) ensures r@ == self@, r.fun() == f { unimplemented!() }
}
impl<T, F> SlabMap<T, F> {
    pub uninterp spec fn view(&self) -> Map<usize, T>;
    pub uninterp spec fn fun(&self) -> F;
    #[verifier::external_body]
    pub fn collect<U>(self) -> (r: Slab<U>) where F: Fn((usize, T)) -> (usize, U)
        requires forall|k: usize| #[trigger] self@.dom().contains(k) ==> call_requires(self.fun(), ((k, self@[k]),)),
            forall|k: usize, o: (usize, U)| #[trigger] call_ensures(self.fun(), ((k, self@[k]),), o) ==> o.0 == k
        ensures r@.dom() == self@.dom(), forall|k: usize| #[trigger] self@.dom().contains(k) ==> call_ensures(self.fun(), ((k, self@[k]),), (k, r@[k]))
    { unimplemented!() }
}
#[verifier::external_body]
pub struct RawCopied<'a> { v: &'a [usize] }
impl<'a> RawCopied<'a> {
    pub uninterp spec fn rest(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<usize>) ensures step(old(self).rest(), final(self).rest(), r) { unimplemented!() }
}
impl<'a> RawIter<'a, usize> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: RawCopied<'a>) ensures r.rest() == self.rest() { unimplemented!() }
}
pub fn this<T>(t: T) -> (r: T) ensures r == t { t }
// the statements not listed in l
#[verifier::opaque]
pub open spec fn done(tr: TMap, l: Seq<usize>) -> TMap { tr.remove_keys(l.to_set()) }
// what is left of l is still to be indexed
#[verifier::opaque]
pub open spec fn todo(tr: TMap, l: Seq<usize>) -> bool {
    l.no_duplicates() && forall|i: int| 0 <= i < l.len() ==> tr.dom().contains(#[trigger] l[i])
}
pub proof fn done_laws()
    ensures
        forall|tr: TMap, l: Seq<usize>| l.len() == 0 ==> #[trigger] done(tr, l) == tr,
        forall|tr: TMap, l: Seq<usize>| #[trigger] todo(tr, l) && l.len() > 0 ==> todo(tr, l.skip(1)) && tr.dom().contains(l[0]) && !done(tr, l).dom().contains(l[0]),
        forall|tr: TMap, l: Seq<usize>| todo(tr, l) && l.len() > 0 ==> #[trigger] done(tr, l.skip(1)) == done(tr, l).insert(l[0], tr[l[0]]),
{
    reveal(done); reveal(todo);
    assert forall|tr: TMap, l: Seq<usize>| l.len() == 0 implies #[trigger] done(tr, l) == tr by { assert(done(tr, l) =~= tr); }
    assert forall|tr: TMap, l: Seq<usize>| #[trigger] todo(tr, l) && l.len() > 0 implies todo(tr, l.skip(1)) && tr.dom().contains(l[0]) && !done(tr, l).dom().contains(l[0]) by { assert(l.contains(l[0])); }
    assert forall|tr: TMap, l: Seq<usize>| todo(tr, l) && l.len() > 0 implies #[trigger] done(tr, l.skip(1)) == done(tr, l).insert(l[0], tr[l[0]]) by {
        let t = l.skip(1);
        assert forall|k: usize| k != l[0] implies #[trigger] t.contains(k) == l.contains(k) by {
            if l.contains(k) { let i = choose|i: int| 0 <= i < l.len() && l[i] == k; assert(t[i - 1] == k); }
            if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(l[i + 1] == k); }
        }
        assert(!t.contains(l[0])) by { if t.contains(l[0]) { let i = choose|i: int| 0 <= i < t.len() && t[i] == l[0]; assert(l[i + 1] == l[0]); } }
        assert(tr.dom().contains(l[0])); assert(l.contains(l[0]));
        assert(done(tr, t) =~= done(tr, l).insert(l[0], tr[l[0]]));
    }
}
