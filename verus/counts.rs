// ---- occurrence counts (non-indexed stores). Ghost code only.
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn mult(t: @T@<usize>, r: usize) -> int {
    one(comp(t, 0) == Some(r)) + one(comp(t, 1) == Some(r)) + one(comp(t, 2) == Some(r)) + one(comp(t, 3) == Some(r))
}
pub open spec fn at(tr: TMap, c: int, r: usize) -> Set<usize> { tr.dom().filter(|i: usize| comp(tr[i], c) == Some(r)) }
#[verifier::opaque]
pub open spec fn occ(tr: TMap, r: usize) -> int {
    (at(tr, 0, r).len() + at(tr, 1, r).len() + at(tr, 2, r).len() + at(tr, 3, r).len()) as int
}
proof fn at_insert(tr: TMap, k: usize, t: @T@<usize>, c: int, r: usize)
    requires !tr.dom().contains(k)
    ensures at(tr.insert(k, t), c, r).len() == at(tr, c, r).len() + one(comp(t, c) == Some(r))
{
    if comp(t, c) == Some(r) { assert(at(tr.insert(k, t), c, r) =~= at(tr, c, r).insert(k)); }
    else { assert(at(tr.insert(k, t), c, r) =~= at(tr, c, r)); }
}
proof fn at_remove(tr: TMap, k: usize, c: int, r: usize)
    requires tr.dom().contains(k)
    ensures at(tr.remove(k), c, r).len() == at(tr, c, r).len() - one(comp(tr[k], c) == Some(r))
{
    if comp(tr[k], c) == Some(r) { assert(at(tr.remove(k), c, r) =~= at(tr, c, r).remove(k)); assert(at(tr, c, r).contains(k)); }
    else { assert(at(tr.remove(k), c, r) =~= at(tr, c, r)); }
}
pub proof fn occ_laws()
    ensures
        forall|tr: TMap, k: usize, t: @T@<usize>, r: usize| !tr.dom().contains(k) ==> #[trigger] occ(tr.insert(k, t), r) == occ(tr, r) + mult(t, r),
        forall|tr: TMap, k: usize, r: usize| tr.dom().contains(k) ==> #[trigger] occ(tr.remove(k), r) == occ(tr, r) - mult(tr[k], r),
        forall|tr: TMap, k: usize, r: usize| tr.dom().contains(k) ==> mult(#[trigger] tr[k], r) <= #[trigger] occ(tr, r),
        forall|tr: TMap, r: usize| 0 <= #[trigger] occ(tr, r) <= 4 * tr.dom().len(),
        forall|tr: TMap, r: usize| #[trigger] unused(tr, r) == (occ(tr, r) == 0),
{
    reveal(occ); reveal(unused);
    assert forall|tr: TMap, k: usize, t: @T@<usize>, r: usize| !tr.dom().contains(k) implies #[trigger] occ(tr.insert(k, t), r) == occ(tr, r) + mult(t, r) by {
        at_insert(tr, k, t, 0, r); at_insert(tr, k, t, 1, r); at_insert(tr, k, t, 2, r); at_insert(tr, k, t, 3, r);
    }
    assert forall|tr: TMap, k: usize, r: usize| tr.dom().contains(k) implies #[trigger] occ(tr.remove(k), r) == occ(tr, r) - mult(tr[k], r) by {
        at_remove(tr, k, 0, r); at_remove(tr, k, 1, r); at_remove(tr, k, 2, r); at_remove(tr, k, 3, r);
    }
    assert forall|tr: TMap, k: usize, r: usize| tr.dom().contains(k) implies mult(#[trigger] tr[k], r) <= #[trigger] occ(tr, r) by {
        at_remove(tr, k, 0, r); at_remove(tr, k, 1, r); at_remove(tr, k, 2, r); at_remove(tr, k, 3, r);
    }
    assert forall|tr: TMap, r: usize| 0 <= #[trigger] occ(tr, r) <= 4 * tr.dom().len() by {
        vstd::set_lib::lemma_len_subset(at(tr, 0, r), tr.dom());
        vstd::set_lib::lemma_len_subset(at(tr, 1, r), tr.dom());
        vstd::set_lib::lemma_len_subset(at(tr, 2, r), tr.dom());
        vstd::set_lib::lemma_len_subset(at(tr, 3, r), tr.dom());
    }
    assert forall|tr: TMap, r: usize| #[trigger] unused(tr, r) == (occ(tr, r) == 0) by {
        if unused(tr, r) {
            assert(at(tr, 0, r) =~= Set::<usize>::empty());
            assert(at(tr, 1, r) =~= Set::<usize>::empty());
            assert(at(tr, 2, r) =~= Set::<usize>::empty());
            assert(at(tr, 3, r) =~= Set::<usize>::empty());
        }
        if occ(tr, r) == 0 {
            assert forall|i: usize| tr.dom().contains(i) implies !uses(#[trigger] tr[i], r) by {
                assert(mult(tr[i], r) <= occ(tr, r)) by { at_remove(tr, i, 0, r); at_remove(tr, i, 1, r); at_remove(tr, i, 2, r); at_remove(tr, i, 3, r); }
            }
        }
    }
}
pub proof fn occ_fresh<R>()
    ensures forall|res: RMap<R>, tr: TMap, r: usize| #[trigger] tins(res, tr) && !res.dom().contains(r) ==> #[trigger] occ(tr, r) == 0
{
    tins_use::<R>(); occ_laws();
    assert forall|res: RMap<R>, tr: TMap, r: usize| #[trigger] tins(res, tr) && !res.dom().contains(r) implies #[trigger] occ(tr, r) == 0 by { assert(unused(tr, r)); }
}

// the parts an insertion needs
pub proof fn occ_insert_laws()
    ensures
        forall|tr: TMap, k: usize, t: @T@<usize>, r: usize| !tr.dom().contains(k) ==> #[trigger] occ(tr.insert(k, t), r) == occ(tr, r) + mult(t, r),
        forall|tr: TMap, r: usize| 0 <= #[trigger] occ(tr, r) <= 4 * tr.dom().len(),
{ occ_laws(); }
