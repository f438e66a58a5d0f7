// ---- std Vec<usize>: the lists of statement indexes made by new_owned, new_multi and remove_graph
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Vec<T> { v: [T; 1] }
impl Vec<usize> {
    pub uninterp spec fn view(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, i: TripleIndexes<'_>) ensures final(self)@ == old(self)@ + i.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn sort(&mut self)
        ensures final(self)@.len() == old(self)@.len(), forall|k: usize| #[trigger] final(self)@.contains(k) == old(self)@.contains(k),
            forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> #[trigger] final(self)@[i] <= #[trigger] final(self)@[j],
            forall|i: int| 0 <= i < final(self)@.len() ==> final(self)@.contains(#[trigger] final(self)@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sort_unstable(&mut self)
        ensures final(self)@.len() == old(self)@.len(), forall|k: usize| #[trigger] final(self)@.contains(k) == old(self)@.contains(k),
            forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> #[trigger] final(self)@[i] <= #[trigger] final(self)@[j],
            forall|i: int| 0 <= i < final(self)@.len() ==> final(self)@.contains(#[trigger] final(self)@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: OwnedTripleIndexes) ensures r.rest() == self@ { unimplemented!() }
}
impl<'a> TripleIndexes<'a> {
    // .collect::<Vec<_>>()
    #[verifier::external_body]
    pub fn collect_vec(self) -> (r: Vec<usize>) ensures r@ == self.rest() { unimplemented!() }
}
pub proof fn index_vec_laws()
    ensures
        forall|a: Seq<usize>, b: Seq<usize>, k: usize| #[trigger] (a + b).contains(k) == (a.contains(k) || b.contains(k)),
        forall|s: Seq<usize>, k: usize| s.len() == 0 ==> !#[trigger] s.contains(k),
{
    assert forall|a: Seq<usize>, b: Seq<usize>, k: usize| #[trigger] (a + b).contains(k) == (a.contains(k) || b.contains(k)) by {
        if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert((a + b)[i] == k); }
        if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert((a + b)[a.len() + i] == k); }
        if (a + b).contains(k) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == k; if i < a.len() { assert(a[i] == k); } else { assert(b[i - a.len()] == k); } }
    }
}
