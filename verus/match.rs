// ---- pattern matching: iterators over the statements left that satisfy the constraints
// core::iter::Copied over a BTreeSet iterator, and vec::IntoIter<usize>
#[verifier::external_body]
pub struct TripleIndexes<'a> { v: &'a [usize] }
#[verifier::external_body]
pub struct OwnedTripleIndexes { v: usize }
impl<'a> Iterator for TripleIndexes<'a> {
    type Item = usize;
    uninterp spec fn rest(&self) -> Seq<usize>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<usize>) { unimplemented!() }
}
impl Iterator for OwnedTripleIndexes {
    type Item = usize;
    uninterp spec fn rest(&self) -> Seq<usize>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<usize>) { unimplemented!() }
}
impl<'a> SetIter<'a> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: TripleIndexes<'a>) ensures r.rest() == self.rest() { unimplemented!() }
}
impl<'a> TripleIndexes<'a> {
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<TripleIndexes<'a>>) ensures r.rest() == self.rest() { unimplemented!() }
}
impl OwnedTripleIndexes {
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<OwnedTripleIndexes>) ensures r.rest() == self.rest() { unimplemented!() }
}
// core::iter::Peekable
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Peekable<I> { v: I }
impl<I> Peekable<I> {
    pub uninterp spec fn rest(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&usize>)
        ensures final(self).rest() == old(self).rest(), old(self).rest().len() == 0 ==> r is None, old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<usize>) ensures step(old(self).rest(), final(self).rest(), r) { unimplemented!() }
}
// a sorted list of indexes of statements, some of them possibly gone by now
pub open spec fn sorted(s: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j]
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < cap_bound()
}
pub proof fn sorted_skip()
    ensures forall|s: Seq<usize>| #[trigger] sorted(s) && s.len() > 0 ==> sorted(s.skip(1)),
        forall|s: Seq<usize>, k: usize| s.len() > 0 && k != s[0] ==> #[trigger] s.skip(1).contains(k) == s.contains(k),
        forall|s: Seq<usize>, k: usize| #[trigger] sorted(s) && s.len() > 0 && k < s[0] ==> !#[trigger] s.contains(k),
        forall|s: Seq<usize>, k: usize| s.len() == 0 ==> !#[trigger] s.contains(k),
        forall|s: Seq<usize>| s.len() > 0 ==> #[trigger] s.contains(s[0]),
{
    assert forall|s: Seq<usize>, k: usize| s.len() > 0 && k != s[0] implies #[trigger] s.skip(1).contains(k) == s.contains(k) by {
        let t = s.skip(1);
        if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(t[i - 1] == k); }
        if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(s[i + 1] == k); }
    }
}
impl<T> Slab<T> {
    // keys are below the capacity, and there are fewer than 2^60 slots
    #[verifier::external_body]
    pub proof fn keyed(&self) ensures forall|k: usize| #[trigger] self@.dom().contains(k) ==> k < self.spec_capacity() && k < cap_bound() {}
}
// distinct stored resources have distinct values
pub proof fn res_distinct<R: Ord>()
    ensures forall|ix: Seq<usize>, res: RMap<R>, a: usize, b: usize| #[trigger] rix(ix, res) && #[trigger] res.dom().contains(a) && #[trigger] res.dom().contains(b) && res[a].value == res[b].value ==> a == b
{
    R::order_laws();
    assert forall|ix: Seq<usize>, res: RMap<R>, a: usize, b: usize| #[trigger] rix(ix, res) && #[trigger] res.dom().contains(a) && #[trigger] res.dom().contains(b) && res[a].value == res[b].value implies a == b by {
        rix_use::<R>();
        let i = choose|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == a;
        let j = choose|j: int| 0 <= j < ix.len() && #[trigger] ix[j] == b;
        if i < j { assert(res[ix[i]].value.olt(res[ix[j]].value)); }
        if j < i { assert(res[ix[j]].value.olt(res[ix[i]].value)); }
    }
}
// distinct stored statements are distinct statements
pub proof fn tr_distinct<R: Ord>(ix: Seq<usize>, res: RMap<R>, tr: TMap)
    requires tix(ix, res, tr)
    ensures forall|a: usize, b: usize| #[trigger] tr.dom().contains(a) && #[trigger] tr.dom().contains(b) && val(res, tr[a]) == val(res, tr[b]) ==> a == b
{
    R::order_laws(); slt_laws::<R>(); tix_use::<R>();
    assert forall|a: usize, b: usize| #[trigger] tr.dom().contains(a) && #[trigger] tr.dom().contains(b) && val(res, tr[a]) == val(res, tr[b]) implies a == b by {
        let i = choose|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == a;
        let j = choose|j: int| 0 <= j < ix.len() && #[trigger] ix[j] == b;
        if i < j { assert(slt(val(res, tr[ix[i]]), val(res, tr[ix[j]]))); }
        if j < i { assert(slt(val(res, tr[ix[j]]), val(res, tr[ix[i]]))); }
    }
}
// the statements that use the resource v in position c: all those at its index, none if it is not known
pub proof fn at_is<R: Ord>(rx: Seq<usize>, res: RMap<R>, tr: TMap)
    requires rix(rx, res), tins(res, tr)
    ensures
        forall|c: int, k: usize, i: usize| res.dom().contains(k) && tr.dom().contains(i) && 0 <= c < 4 ==> #[trigger] at(tr, c, k).contains(i) == (vcomp(val(res, tr[i]), c) == Some(res[k].value)),
        forall|v: R, i: usize| !#[trigger] known(res, v) && #[trigger] tr.dom().contains(i) ==> !mentions(val(res, tr[i]), v),
        forall|c: int, k: usize, i: usize| #[trigger] at(tr, c, k).contains(i) ==> tr.dom().contains(i),
{
    reveal(at); tins_use::<R>(); res_distinct::<R>(); reveal(known);
    assert forall|c: int, k: usize, i: usize| res.dom().contains(k) && tr.dom().contains(i) && 0 <= c < 4 implies #[trigger] at(tr, c, k).contains(i) == (vcomp(val(res, tr[i]), c) == Some(res[k].value)) by {
        assert(tin(res, tr[i]));
        if let Some(r) = comp(tr[i], c) { assert(res.dom().contains(r)); }
    }
    assert forall|v: R, i: usize| !#[trigger] known(res, v) && #[trigger] tr.dom().contains(i) implies !mentions(val(res, tr[i]), v) by { assert(tin(res, tr[i])); }
}
pub proof fn order_is_sorted()
    ensures forall|b: BTreeSet<usize>| #![trigger b.order()] (forall|k: usize| #[trigger] b@.contains(k) ==> k < cap_bound()) ==> sorted(b.order()) && forall|k: usize| #[trigger] b.order().contains(k) == b@.contains(k)
{
    assert forall|b: BTreeSet<usize>| #![trigger b.order()] (forall|k: usize| #[trigger] b@.contains(k) ==> k < cap_bound()) implies sorted(b.order()) && forall|k: usize| #[trigger] b.order().contains(k) == b@.contains(k) by {
        b.ordered();
        assert forall|i: int| 0 <= i < b.order().len() implies #[trigger] b.order()[i] < cap_bound() by { assert(b@.contains(b.order()[i])); }
    }
}
// components of stored statements are the same resource when they are the same value
pub proof fn same_value<R: Ord>(rx: Seq<usize>, res: RMap<R>, tr: TMap)
    requires rix(rx, res), tins(res, tr)
    ensures forall|k: usize| #[trigger] tr.dom().contains(k) ==> tin(res, tr[k]),
        forall|a: usize, b: usize| res.dom().contains(a) && res.dom().contains(b) ==> (#[trigger] res[a].value == #[trigger] res[b].value) == (a == b)
{ tins_use::<R>(); res_distinct::<R>(); }
#[verifier::opaque]
pub open spec fn has_order<R: Ord>(res: RMap<R>, tr: TMap) -> bool { exists|ix: Seq<usize>| #[trigger] tix(ix, res, tr) }
pub proof fn has_order_law<R: Ord>() ensures forall|ix: Seq<usize>, res: RMap<R>, tr: TMap| #[trigger] tix(ix, res, tr) ==> has_order(res, tr) { reveal(has_order); }
pub proof fn tr_distinct_any<R: Ord>(res: RMap<R>, tr: TMap)
    requires has_order(res, tr)
    ensures forall|a: usize, b: usize| #[trigger] tr.dom().contains(a) && #[trigger] tr.dom().contains(b) && val(res, tr[a]) == val(res, tr[b]) ==> a == b
{ reveal(has_order); let ix = choose|ix: Seq<usize>| #[trigger] tix(ix, res, tr); tr_distinct(ix, res, tr); }
