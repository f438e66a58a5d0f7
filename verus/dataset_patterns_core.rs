//@include match.rs
//@include quad_pattern.rs
//@include index_vec.rs
//@include asked.rs
//@item dataset/impl/indexed_btree_dataset.rs | SubjectConstraints | #[verifier::reject_recursive_types(I)] | `std::iter::Peekable` => `Peekable`
//@item dataset/impl/indexed_btree_dataset.rs | PredicateConstraints | #[verifier::reject_recursive_types(I)] | `std::iter::Peekable` => `Peekable`
//@item dataset/impl/indexed_btree_dataset.rs | ObjectConstraints | #[verifier::reject_recursive_types(I)] | `std::iter::Peekable` => `Peekable`
//@item dataset/impl/indexed_btree_dataset.rs | GraphConstraints | #[verifier::reject_recursive_types(I)] | `std::iter::Peekable` => `Peekable`
//@include constraints.rs F=`dataset/impl/indexed_btree_dataset.rs` IG=`<I: Iterator<Item = usize>>` A=`<I>` T=`Quad` X0=`indexes`
//@include constraints_graph.rs F=`dataset/impl/indexed_btree_dataset.rs` IG=`<I: Iterator<Item = usize>>` A=`<I>` T=`Quad` X0=`indexes`
pub proof fn default_is<R: Ord>(res: RMap<R>, tr: TMap)
    ensures forall|i: usize| #[trigger] at_default(tr).contains(i) == (tr.dom().contains(i) && val(res, tr[i]).3 is None)
{ reveal(at_default); }
impl<'a> SubjectConstraints<TripleIndexes<'a>> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<'a> SubjectConstraints<TripleIndexes<'a>> | new
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k) == sat_s($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
}
impl SubjectConstraints<OwnedTripleIndexes> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl SubjectConstraints<OwnedTripleIndexes> | new_owned
//@ subst `.collect::<Vec<_>>()` => `.collect_vec()`
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k) == sat_s($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl SubjectConstraints<OwnedTripleIndexes> | new_multi
//@ ret r
//@ loop 0 invariant forall|k: usize| #[trigger] indexes@.contains(k) ==> $0.quads@.dom().contains(k), forall|k: usize| #[trigger] $0.quads@.dom().contains(k) ==> (indexes@.contains(k) || asked(__it0.rest(), Some(val($0.resources@, $0.quads@[k]).0))) == asked($1->Given_0.items(), Some(val($0.resources@, $0.quads@[k]).0))
//@| decreases __it0.rest().len()
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k) == msat_s($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@); index_vec_laws(); asked_laws::<R>();
//@end
}
impl<'a> PredicateConstraints<TripleIndexes<'a>> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<'a> PredicateConstraints<TripleIndexes<'a>> | new
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == sat_p($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
}
impl PredicateConstraints<OwnedTripleIndexes> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl PredicateConstraints<OwnedTripleIndexes> | new_owned
//@ subst `.collect::<Vec<_>>()` => `.collect_vec()`
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == sat_p($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl PredicateConstraints<OwnedTripleIndexes> | new_multi
//@ ret r
//@ loop 0 invariant forall|k: usize| #[trigger] indexes@.contains(k) ==> $0.quads@.dom().contains(k), forall|k: usize| #[trigger] $0.quads@.dom().contains(k) ==> (indexes@.contains(k) || asked(__it0.rest(), Some(val($0.resources@, $0.quads@[k]).1))) == asked($1->Given_0.items(), Some(val($0.resources@, $0.quads@[k]).1))
//@| decreases __it0.rest().len()
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == msat_p($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@); index_vec_laws(); asked_laws::<R>();
//@end
}
impl<'a> ObjectConstraints<TripleIndexes<'a>> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<'a> ObjectConstraints<TripleIndexes<'a>> | new
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == sat_o($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
}
impl ObjectConstraints<OwnedTripleIndexes> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl ObjectConstraints<OwnedTripleIndexes> | new_owned
//@ subst `.collect::<Vec<_>>()` => `.collect_vec()`
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == sat_o($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl ObjectConstraints<OwnedTripleIndexes> | new_multi
//@ ret r
//@ loop 0 invariant forall|k: usize| #[trigger] indexes@.contains(k) ==> $0.quads@.dom().contains(k), forall|k: usize| #[trigger] $0.quads@.dom().contains(k) ==> (indexes@.contains(k) || asked(__it0.rest(), Some(val($0.resources@, $0.quads@[k]).2))) == asked($1->Given_0.items(), Some(val($0.resources@, $0.quads@[k]).2))
//@| decreases __it0.rest().len()
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == msat_o($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@); index_vec_laws(); asked_laws::<R>();
//@end
}
impl<'a> GraphConstraints<TripleIndexes<'a>> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<'a> GraphConstraints<TripleIndexes<'a>> | new
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == sat_g($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
}
impl GraphConstraints<OwnedTripleIndexes> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl GraphConstraints<OwnedTripleIndexes> | new_owned
//@ subst `.collect::<Vec<_>>()` => `.collect_vec()`
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == sat_g($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@);
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl GraphConstraints<OwnedTripleIndexes> | new_multi
//@ subst `.collect::<Vec<_>>()` => `.collect_vec()`
//@ ret r
//@ loop 0 invariant forall|k: usize| #[trigger] indexes@.contains(k) ==> $0.quads@.dom().contains(k), forall|k: usize| #[trigger] $0.quads@.dom().contains(k) ==> (indexes@.contains(k) || asked(__it0.rest(), val($0.resources@, $0.quads@[k]).3)) == asked($1->Given_0->0.items(), val($0.resources@, $0.quads@[k]).3)
//@| decreases __it0.rest().len()
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.quads@.dom().contains(k) ==> #[trigger] r.allows(k, $0.quads@[k]) == msat_g($1, val($0.resources@, $0.quads@[k]))
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.quads@); order_is_sorted(); $0.quads.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.quads@); default_is($0.resources@, $0.quads@); index_vec_laws(); asked_laws::<R>();
//@end
}
#[verifier::reject_recursive_types(R)]
//@item dataset/impl/indexed_btree_dataset.rs | PatternMatching
//@include quad_matching.rs S=`PatternMatching`
#[verifier::reject_recursive_types(R)]
//@item dataset/impl/indexed_btree_dataset.rs | MultiPatternMatching
//@include quad_matching.rs S=`MultiPatternMatching`
impl<R: Ord> IndexedBTreeDataset<R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | pattern_matching
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), forall|u: Quad<R>| #[trigger] r.pending(u) == (self.has(u) && sat($1, u))
//@ proof has_order_law::<R>(); holds_use::<R>(); PatternMatching::<R>::pending_law();
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | multi_pattern_matching
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), forall|u: Quad<R>| #[trigger] r.pending(u) == (self.has(u) && msat($1, u))
//@ proof has_order_law::<R>(); holds_use::<R>(); MultiPatternMatching::<R>::pending_law();
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> PatternMatchingDataset for IndexedBTreeDataset<R> | quad_pattern_matching
//@ as trait_pattern_matching
//@ subst `Self::Resource` => `R`
//@ subst `Self::QuadPatternMatching<'_, 'p>` => `PatternMatching<'_, R>`
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), forall|u: Quad<R>| #[trigger] r.pending(u) == (self.has(u) && sat($1, u))
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> MultiPatternMatchingDataset for IndexedBTreeDataset<R> | quad_multi_pattern_matching
//@ as trait_multi_pattern_matching
//@ subst `Self::QuadMultiPatternMatching<'_, 'p>` => `MultiPatternMatching<'_, R>`
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), forall|u: Quad<R>| #[trigger] r.pending(u) == (self.has(u) && msat($1, u))
//@end
}
