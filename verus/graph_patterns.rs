use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust indexed_graph
//@include indexed_graph_core.rs
//@endtrust
//@include match.rs
//@include triple_pattern.rs
//@item dataset/graph/impl/indexed_btree_graph.rs | SubjectConstraints | `std::iter::Peekable<std::iter::Copied<std::collections::btree_set::Iter<'a, usize>>>` => `Peekable<TripleIndexes<'a>>`
//@item dataset/graph/impl/indexed_btree_graph.rs | PredicateConstraints | `std::iter::Peekable<std::iter::Copied<std::collections::btree_set::Iter<'a, usize>>>` => `Peekable<TripleIndexes<'a>>`
//@item dataset/graph/impl/indexed_btree_graph.rs | ObjectConstraints | `std::iter::Peekable<std::iter::Copied<std::collections::btree_set::Iter<'a, usize>>>` => `Peekable<TripleIndexes<'a>>`
//@include constraints.rs F=`dataset/graph/impl/indexed_btree_graph.rs` IG=`<'a>` A=`<'a>` T=`Triple` X0=`indexes`
impl<'a> SubjectConstraints<'a> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<'a> SubjectConstraints<'a> | new
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.triples@.dom().contains(k) ==> #[trigger] r.allows(k) == sat_s($1, &val($0.resources@, $0.triples@[k]).0)
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.triples@); order_is_sorted(); $0.triples.keyed();
//@end
}
impl<'a> PredicateConstraints<'a> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<'a> PredicateConstraints<'a> | new
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.triples@.dom().contains(k) ==> #[trigger] r.allows(k, $0.triples@[k]) == ({ let u = val($0.resources@, $0.triples@[k]); sat_p($1, &u.0, &u.1) })
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.triples@); order_is_sorted(); $0.triples.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.triples@);
//@end
}
impl<'a> ObjectConstraints<'a> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<'a> ObjectConstraints<'a> | new
//@ ret r
//@ spec requires $0.wf()
//@| ensures r.ok(), forall|k: usize| $0.triples@.dom().contains(k) ==> #[trigger] r.allows(k, $0.triples@[k]) == ({ let u = val($0.resources@, $0.triples@[k]); sat_o($1, &u.0, &u.1, &u.2) })
//@ proof at_is($0.resources_indexes@, $0.resources@, $0.triples@); order_is_sorted(); $0.triples.keyed(); same_value($0.resources_indexes@, $0.resources@, $0.triples@);
//@end
}
#[verifier::reject_recursive_types(R)]
//@item dataset/graph/impl/indexed_btree_graph.rs | PatternMatching
impl<'a, R: Ord> PatternMatching<'a, R> {
    pub open spec fn ok(&self) -> bool {
        &&& self.subject.ok() && self.predicate.ok() && self.object.ok()
        &&& tins(self.resources@, self.triples@)
        &&& has_order(self.resources@, self.triples@)
    }
    // the stored statements still to be visited that satisfy the constraints
    pub open spec fn left(&self, k: usize) -> bool {
        k >= self.i && self.triples@.dom().contains(k) && self.subject.allows(k) && self.predicate.allows(k, self.triples@[k]) && self.object.allows(k, self.triples@[k])
    }
    pub open spec fn pending(&self, u: Triple<R>) -> bool {
        exists|k: usize| #[trigger] self.left(k) && val(self.resources@, self.triples@[k]) == u
    }
    // only the statement at i went
    pub open spec fn after(a: &Self, b: &Self, i: usize) -> bool {
        &&& a.left(i) && b.resources == a.resources && b.triples == a.triples
        &&& forall|k: usize| #[trigger] b.left(k) == (a.left(k) && k != i)
    }
    // then it is the one statement that is no longer pending: with the contract of next, every matching
    // statement is yielded, once, and nothing else is
    proof fn took(a: &Self, b: &Self, i: usize)
        requires a.ok(), Self::after(a, b, i)
        ensures a.pending(val(a.resources@, a.triples@[i])), forall|u: Triple<R>| #[trigger] b.pending(u) == (a.pending(u) && u != val(a.resources@, a.triples@[i]))
    {
        tr_distinct_any(a.resources@, a.triples@);
        assert forall|u: Triple<R>| a.pending(u) && u != val(a.resources@, a.triples@[i]) implies #[trigger] b.pending(u) by {
            let k = choose|k: usize| #[trigger] a.left(k) && val(a.resources@, a.triples@[k]) == u;
            assert(b.left(k));
        }
    }
    proof fn pending_law()
        ensures forall|m: Self, tr: TMap, k: usize, u: Triple<R>| #![trigger m.pending(u), tr.dom().contains(k)] m.triples@ == tr && m.left(k) && val(m.resources@, m.triples@[k]) == u ==> m.pending(u)
    {}
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<'a, R> Iterator for PatternMatching<'a, R> | next
//@ ret r
//@ subst `Self::Item` => `Triple<&'a R>`
//@ subst `let Some(&triple) = self.triples.get(i) else` => `let Some(triple) = self.triples.get(i).copied() else`
//@ loop 0 invariant self.ok(), self.resources == old(self).resources, self.triples == old(self).triples, forall|k: usize| #![trigger self.left(k)] #![trigger old(self).left(k)] self.left(k) == old(self).left(k)
//@| decreases (if self.i < self.triples.spec_capacity() { self.triples.spec_capacity() - self.i } else { 0 })
//@ spec requires old(self).ok()
//@| ensures final(self).ok(), final(self).resources == old(self).resources, final(self).triples == old(self).triples,
//@|    r is None ==> forall|u: Triple<R>| !#[trigger] final(self).pending(u) && !#[trigger] old(self).pending(u),
//@|    r is Some ==> exists|k: usize| #[trigger] old(self).triples@.dom().contains(k) && PatternMatching::after(old(self), final(self), k) && derefs(r->0) == val(old(self).resources@, old(self).triples@[k])
//@ proof self.triples.keyed(); tins_use::<R>();
//@end
}
impl<R: Ord> IndexedBTreeGraph<R> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | pattern_matching
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), forall|u: Triple<R>| #[trigger] r.pending(u) == (self.has(u) && sat($1, &u.0, &u.1, &u.2))
//@ proof has_order_law::<R>(); holds_use::<R>(); PatternMatching::<R>::pending_law();
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> PatternMatchingGraph for IndexedBTreeGraph<R> | triple_pattern_matching
//@ as trait_pattern_matching
//@ subst `Self::Resource` => `R`
//@ subst `Self::TriplePatternMatching<'_, 'p>` => `PatternMatching<'_, R>`
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), forall|u: Triple<R>| #[trigger] r.pending(u) == (self.has(u) && sat($1, &u.0, &u.1, &u.2))
//@end
}
}
