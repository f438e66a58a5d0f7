use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust indexed_graph
//@include indexed_graph_core.rs
//@endtrust
// the graph that is indexed: a BTreeGraph, as specified in the unit btree_graph
pub mod base {
use super::*;
//@trust btree_graph
//@include btree_graph_core.rs stmt=`triple_val`
//@endtrust
}
use base::BTreeGraph;
//@include indexing.rs F=`from_non_indexed`
// what holds of the graph holds of the indexed one, which has the same resources and the same statements
pub proof fn carried<R: Ord>(d: BTreeGraph<R>)
    requires d.wf()
    ensures
        forall|res: RMap<R>| #![trigger tins(res, d.triples@)] #![trigger rix(d.resources_indexes@, res)] #![trigger tix(d.triples_indexes@, res, d.triples@)] same(d.resources@, res) ==> tins(res, d.triples@) && rix(d.resources_indexes@, res) && tix(d.triples_indexes@, res, d.triples@),
        forall|res: RMap<R>, u: Triple<R>| same(d.resources@, res) ==> #[trigger] holds(res, d.triples@, u) == d.has(u),
        forall|r: usize| #[trigger] d.resources@.dom().contains(r) ==> !unused(d.triples@, r),
        todo(d.triples@, d.triples_indexes@), done(d.triples@, d.triples_indexes@) == TMap::empty(),
        forall|i: usize| #[trigger] d.triples@.dom().contains(i) ==> base::tin(d.resources@, d.triples@[i]),
{
    reveal(base::rix); reveal(base::tins); reveal(base::tix); reveal(base::holds); reveal(rix); reveal(tins); reveal(tix); reveal(holds); reveal(todo); reveal(done);
    R::order_laws(); slt_laws::<R>();
    let tr = d.triples@; let ix = d.triples_indexes@; let r0 = d.resources@;
    assert forall|i: int, j: int| 0 <= i < j < ix.len() implies ix[i] != ix[j] by { assert(slt(base::val(r0, tr[ix[i]]), base::val(r0, tr[ix[j]]))); }
    assert(done(tr, ix) =~= TMap::empty()) by {
        assert forall|k: usize| !done(tr, ix).dom().contains(k) by { if tr.dom().contains(k) { assert(ix.contains(k)); } }
    }
    assert forall|r: usize| #[trigger] r0.dom().contains(r) implies !unused(tr, r) by {
        assert(base::occ(tr, r) > 0);
        base::occ_laws();
        if unused(tr, r) { reveal(unused); reveal(base::unused); assert(base::unused(tr, r)); }
    }
    assert forall|res: RMap<R>| same(r0, res) implies #[trigger] tins(res, tr) && rix(d.resources_indexes@, res) && tix(ix, res, tr) by {
        assert forall|i: usize| tr.dom().contains(i) implies tin(res, #[trigger] tr[i]) && val(res, tr[i]) == base::val(r0, tr[i]) by { assert(base::tin(r0, tr[i])); }
        assert forall|i: int, j: int| 0 <= i < j < ix.len() implies slt(val(res, #[trigger] tr[ix[i]]), val(res, #[trigger] tr[ix[j]])) by { assert(slt(base::val(r0, tr[ix[i]]), base::val(r0, tr[ix[j]]))); }
        let rx = d.resources_indexes@;
        assert forall|i: int, j: int| 0 <= i < j < rx.len() implies (#[trigger] res[rx[i]].value).olt(#[trigger] res[rx[j]].value) by { assert(r0[rx[i]].value.olt(r0[rx[j]].value)); }
    }
    assert forall|res: RMap<R>, u: Triple<R>| same(r0, res) implies #[trigger] holds(res, tr, u) == d.has(u) by {
        assert forall|i: usize| tr.dom().contains(i) implies val(res, #[trigger] tr[i]) == base::val(r0, tr[i]) by { assert(base::tin(r0, tr[i])); }
        if holds(res, tr, u) { let i = choose|i: usize| tr.dom().contains(i) && val(res, #[trigger] tr[i]) == u; assert(base::val(r0, tr[i]) == u); }
        if d.has(u) { let i = choose|i: usize| tr.dom().contains(i) && base::val(r0, #[trigger] tr[i]) == u; assert(val(res, tr[i]) == u); }
    }
}
pub open spec fn same<R>(a: base::RMap<R>, b: RMap<R>) -> bool { forall|k: usize| #![trigger a.dom().contains(k)] #![trigger b.dom().contains(k)] #![trigger b[k]] b.dom().contains(k) == a.dom().contains(k) && (a.dom().contains(k) ==> b[k].value == a[k].value) }
impl<R: Ord> IndexedBTreeGraph<R> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R> IndexedBTreeGraph<R> | from_non_indexed
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ subst `for &i in &graph.triples_indexes` => `for i in graph.triples_indexes.iter().copied()`
//@ closure 0 ((usize, base::Resource<R>)) -> o: (usize, Resource<R>)
//@| ensures o.0 == c0.0, o.1.value == c0.1.value, o.1.as_subject@ == nil(), o.1.as_predicate@ == nil(), o.1.as_object@ == nil()
//@ into 0 this
//@ loop 0 invariant same($0.resources@, resources@), todo($0.triples@, __it0.rest()),
//@|    forall|r: usize| #[trigger] resources@.dom().contains(r) ==> links(resources@[r], done($0.triples@, __it0.rest()), r),
//@|    role(subjects@, done($0.triples@, __it0.rest()), 0), role(predicates@, done($0.triples@, __it0.rest()), 1), role(objects@, done($0.triples@, __it0.rest()), 2)
//@| decreases __it0.rest().len()
//@ spec requires $0.wf()
//@| ensures r.wf(), r.triples@ == $0.triples@, forall|u: Triple<R>| #[trigger] r.has(u) == $0.has(u)
//@ proof carried($0); done_laws(); at_insert_laws(); at3(); role_insert_laws(); clear_roles(); clear_role_sets();
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R> From<BTreeGraph<R>> for IndexedBTreeGraph<R> | from
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.wf(), forall|u: Triple<R>| #[trigger] r.has(u) == $0.has(u)
//@end
}
pub proof fn clear_role_sets() ensures forall|s: Set<usize>, c: int| #[trigger] role(s, TMap::empty(), c) == (s == nil())
{ reveal(role); clear_roles(); assert forall|s: Set<usize>, c: int| #[trigger] role(s, TMap::empty(), c) == (s == nil()) by { if role(s, TMap::empty(), c) { assert(s =~= nil()); } } }
impl<R: Ord> BTreeGraph<R> {
//@fn dataset/graph/impl/btree_graph.rs | impl<R> BTreeGraph<R> | into_indexed
//@ ret r
//@ spec requires self.wf()
//@| ensures r.wf(), forall|u: Triple<R>| #[trigger] r.has(u) == self.has(u)
//@end
}
}
