// ---- std BTreeSet<usize>: a set, iterated in increasing order.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { v: Vec<T> }
pub open spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
impl BTreeSet<usize> {
    pub uninterp spec fn view(&self) -> Set<usize>;
    pub uninterp spec fn order(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(i), r == !old(self)@.contains(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: &usize) -> (r: bool) ensures final(self)@ == old(self)@.remove(*i), r == old(self)@.contains(*i) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<usize>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: SetIter<'_>) ensures r.rest() == self.order() { unimplemented!() }
    // the order of iteration: every element once, increasing
    #[verifier::external_body]
    pub proof fn ordered(&self) ensures covers(self.order(), self@), ascending(self.order()), self.order().len() == self@.len() {}
    // std::iter::once(i).collect()
    #[verifier::external_body]
    pub fn only(i: usize) -> (r: Self) ensures r@ == Set::<usize>::empty().insert(i) { unimplemented!() }
}
#[verifier::external_body]
pub struct SetIter<'a> { v: &'a Vec<usize> }
impl<'a> SetIter<'a> {
    pub uninterp spec fn rest(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a usize>) ensures stepr(old(self).rest(), final(self).rest(), r) { unimplemented!() }
}
// ---- reverse links: which statements use a resource in which position. Ghost code only.
#[verifier::opaque]
pub open spec fn at(tr: TMap, c: int, r: usize) -> Set<usize> { tr.dom().filter(|i: usize| comp(tr[i], c) == Some(r)) }
pub open spec fn nil() -> Set<usize> { Set::<usize>::empty() }
pub proof fn at_insert_laws()
    ensures
        forall|tr: TMap, k: usize, t: @T@<usize>, c: int, r: usize| !tr.dom().contains(k) ==> #[trigger] at(tr.insert(k, t), c, r) == (if comp(t, c) == Some(r) { at(tr, c, r).insert(k) } else { at(tr, c, r) }),
{
    reveal(at);
    assert forall|tr: TMap, k: usize, t: @T@<usize>, c: int, r: usize| !tr.dom().contains(k) implies #[trigger] at(tr.insert(k, t), c, r) == (if comp(t, c) == Some(r) { at(tr, c, r).insert(k) } else { at(tr, c, r) }) by {
        assert(at(tr.insert(k, t), c, r) =~= (if comp(t, c) == Some(r) { at(tr, c, r).insert(k) } else { at(tr, c, r) }));
    }
}
pub proof fn at_remove_laws()
    ensures
        forall|tr: TMap, k: usize, c: int, r: usize| tr.dom().contains(k) ==> #[trigger] at(tr.remove(k), c, r) == (if comp(tr[k], c) == Some(r) { at(tr, c, r).remove(k) } else { at(tr, c, r) }),
{
    reveal(at);
    assert forall|tr: TMap, k: usize, c: int, r: usize| tr.dom().contains(k) implies #[trigger] at(tr.remove(k), c, r) == (if comp(tr[k], c) == Some(r) { at(tr, c, r).remove(k) } else { at(tr, c, r) }) by {
        assert(at(tr.remove(k), c, r) =~= (if comp(tr[k], c) == Some(r) { at(tr, c, r).remove(k) } else { at(tr, c, r) }));
    }
}
pub proof fn at_fresh<R>()
    ensures forall|res: RMap<R>, tr: TMap, c: int, r: usize| #[trigger] tins(res, tr) && !res.dom().contains(r) ==> #[trigger] at(tr, c, r) == nil()
{
    reveal(at);
    assert forall|res: RMap<R>, tr: TMap, c: int, r: usize| #[trigger] tins(res, tr) && !res.dom().contains(r) implies #[trigger] at(tr, c, r) == nil() by {
        reveal(tins);
        assert forall|i: usize| !at(tr, c, r).contains(i) by { if tr.dom().contains(i) { assert(tin(res, tr[i])); } }
        assert(at(tr, c, r) =~= nil());
    }
}
// a resource is unused exactly when no position refers to it
pub proof fn at_unused()
    ensures forall|tr: TMap, r: usize| #[trigger] unused(tr, r) == (at(tr, 0, r) == nil() && at(tr, 1, r) == nil() && at(tr, 2, r) == nil() && at(tr, 3, r) == nil()),
{
    reveal(at); reveal(unused);
    assert forall|tr: TMap, r: usize| #[trigger] unused(tr, r) == (at(tr, 0, r) == nil() && at(tr, 1, r) == nil() && at(tr, 2, r) == nil() && at(tr, 3, r) == nil()) by {
        if unused(tr, r) {
            assert(at(tr, 0, r) =~= nil()); assert(at(tr, 1, r) =~= nil()); assert(at(tr, 2, r) =~= nil()); assert(at(tr, 3, r) =~= nil());
        }
        if at(tr, 0, r) == nil() && at(tr, 1, r) == nil() && at(tr, 2, r) == nil() && at(tr, 3, r) == nil() {
            assert forall|i: usize| tr.dom().contains(i) implies !uses(#[trigger] tr[i], r) by {
                assert(!at(tr, 0, r).contains(i)); assert(!at(tr, 1, r).contains(i)); assert(!at(tr, 2, r).contains(i)); assert(!at(tr, 3, r).contains(i));
            }
        }
    }
}
// the set of resources used in position c
#[verifier::opaque]
pub open spec fn role(s: Set<usize>, tr: TMap, c: int) -> bool { forall|r: usize| #[trigger] s.contains(r) == (at(tr, c, r) != nil()) }
pub proof fn role_insert_laws()
    ensures
        forall|s: Set<usize>, tr: TMap, k: usize, t: @T@<usize>, c: int, r: usize| role(s, tr, c) && !tr.dom().contains(k) && comp(t, c) == Some(r) ==> #[trigger] role(s.insert(r), tr.insert(k, t), c),
        forall|s: Set<usize>, tr: TMap, k: usize, t: @T@<usize>, c: int| role(s, tr, c) && !tr.dom().contains(k) && comp(t, c) is None ==> #[trigger] role(s, tr.insert(k, t), c),
{
    at_insert_laws(); reveal(role);
    assert forall|s: Set<usize>, tr: TMap, k: usize, t: @T@<usize>, c: int, r: usize| role(s, tr, c) && !tr.dom().contains(k) && comp(t, c) == Some(r) implies #[trigger] role(s.insert(r), tr.insert(k, t), c) by {
        assert(at(tr.insert(k, t), c, r).contains(k));
    }
}
pub proof fn role_remove_laws()
    ensures
        forall|s: Set<usize>, tr: TMap, k: usize, c: int, r: usize| role(s, tr, c) && tr.dom().contains(k) && comp(tr[k], c) == Some(r) && at(tr.remove(k), c, r) == nil() ==> #[trigger] role(s.remove(r), tr.remove(k), c),
        forall|s: Set<usize>, tr: TMap, k: usize, c: int| role(s, tr, c) && tr.dom().contains(k) && (forall|r: usize| comp(tr[k], c) == Some(r) ==> at(tr.remove(k), c, r) != nil()) ==> #[trigger] role(s, tr.remove(k), c),
{
    at_remove_laws(); reveal(role);
    assert forall|s: Set<usize>, tr: TMap, k: usize, c: int| role(s, tr, c) && tr.dom().contains(k) && (forall|r: usize| comp(tr[k], c) == Some(r) ==> at(tr.remove(k), c, r) != nil()) implies #[trigger] role(s, tr.remove(k), c) by {
        assert forall|r: usize| #[trigger] s.contains(r) == (at(tr.remove(k), c, r) != nil()) by {
            if comp(tr[k], c) == Some(r) { assert(at(tr, c, r).contains(k)) by { reveal(at); } assert(at(tr, c, r) != nil()); }
        }
    }
}
pub proof fn clear_roles() ensures forall|c: int, r: usize| #[trigger] at(TMap::empty(), c, r) == nil()
{ assert forall|c: int, r: usize| #[trigger] at(TMap::empty(), c, r) == nil() by { reveal(at); assert(at(TMap::empty(), c, r) =~= nil()); } }
pub proof fn unused_insert_laws()
    ensures forall|tr: TMap, k: usize, t: @T@<usize>, r: usize| !tr.dom().contains(k) ==> #[trigger] unused(tr.insert(k, t), r) == (unused(tr, r) && !uses(t, r)),
{
    reveal(unused);
    assert forall|tr: TMap, k: usize, t: @T@<usize>, r: usize| !tr.dom().contains(k) implies #[trigger] unused(tr.insert(k, t), r) == (unused(tr, r) && !uses(t, r)) by {
        let tr2 = tr.insert(k, t);
        assert(tr2.dom().contains(k) && tr2[k] == t);
        assert forall|i: usize| tr.dom().contains(i) implies tr2.dom().contains(i) && #[trigger] tr2[i] == tr[i] by {}
        if unused(tr2, r) { assert forall|i: usize| tr.dom().contains(i) implies !uses(#[trigger] tr[i], r) by { assert(!uses(tr2[i], r)); } }
    }
}
pub proof fn at_has()
    ensures forall|tr: TMap, i: usize, c: int, r: usize| tr.dom().contains(i) && comp(#[trigger] tr[i], c) == Some(r) ==> #[trigger] at(tr, c, r) != nil()
{
    assert forall|tr: TMap, i: usize, c: int, r: usize| tr.dom().contains(i) && comp(#[trigger] tr[i], c) == Some(r) implies #[trigger] at(tr, c, r) != nil() by {
        reveal(at); assert(at(tr, c, r).contains(i));
    }
}
// ---- listing the resources used in position c
pub open spec fn placed<R>(res: RMap<R>, tr: TMap, v: R, c: int) -> bool { exists|u: @T@<R>| #[trigger] holds(res, tr, u) && vcomp(u, c) == Some(v) }
pub proof fn role_listing<R: Ord>(ix: Seq<usize>, s: Set<usize>, rx: Seq<usize>, res: RMap<R>, tr: TMap, c: int)
    requires rix(rx, res), tins(res, tr), role(s, tr, c), covers(ix, s), ascending(ix), 0 <= c < 4
    ensures rlisting(ix, res).no_duplicates(), forall|v: R| #[trigger] rlisting(ix, res).contains(v) == placed(res, tr, v, c),
        forall|i: int| 0 <= i < ix.len() ==> res.dom().contains(#[trigger] ix[i])
{
    R::order_laws();
    let l = rlisting(ix, res);
    assert forall|k: usize| #[trigger] s.contains(k) implies exists|i: usize| tr.dom().contains(i) && comp(#[trigger] tr[i], c) == Some(k) by {
        reveal(role); reveal(at);
        if forall|i: usize| tr.dom().contains(i) ==> comp(#[trigger] tr[i], c) != Some(k) { assert(at(tr, c, k) =~= nil()); }
    }
    assert forall|i: int| 0 <= i < ix.len() implies res.dom().contains(#[trigger] ix[i]) by {
        assert(s.contains(ix[i]));
        let j = choose|j: usize| tr.dom().contains(j) && comp(#[trigger] tr[j], c) == Some(ix[i]);
        tins_use::<R>(); assert(tin(res, tr[j]));
    }
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
        rix_use::<R>();
        let a = choose|a: int| 0 <= a < rx.len() && #[trigger] rx[a] == ix[i];
        let b = choose|b: int| 0 <= b < rx.len() && #[trigger] rx[b] == ix[j];
        assert(ix[i] != ix[j]) by { if i < j { assert(ix[i] < ix[j]); } else { assert(ix[j] < ix[i]); } }
        if a < b { assert(res[rx[a]].value.olt(res[rx[b]].value)); } else { assert(res[rx[b]].value.olt(res[rx[a]].value)); }
    }
    assert forall|v: R| #[trigger] l.contains(v) == placed(res, tr, v, c) by {
        if l.contains(v) {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == v;
            let j = choose|j: usize| tr.dom().contains(j) && comp(#[trigger] tr[j], c) == Some(ix[i]);
            holds_use::<R>();
            assert(holds(res, tr, val(res, tr[j])));
            assert(vcomp(val(res, tr[j]), c) == Some(v));
        }
        if placed(res, tr, v, c) {
            let u = choose|u: @T@<R>| #[trigger] holds(res, tr, u) && vcomp(u, c) == Some(v);
            holds_use::<R>();
            let j = choose|j: usize| #[trigger] tr.dom().contains(j) && val(res, tr[j]) == u;
            let k = comp(tr[j], c)->0;
            assert(comp(tr[j], c) == Some(k));
            assert(s.contains(k)) by { reveal(role); reveal(at); assert(at(tr, c, k).contains(j)); }
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == k;
            assert(l[i] == v);
        }
    }
}
