use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust indexed_dataset
//@include indexed_dataset_core.rs
//@endtrust
//@trust dataset_patterns
//@include dataset_patterns_core.rs
//@endtrust
#[verifier::reject_recursive_types(R)]
//@item dataset/impl/indexed_btree_dataset.rs | ExtractPatternMatching
impl<'a, R: Ord> ExtractPatternMatching<'a, R> {
    pub open spec fn ds(&self) -> IndexedBTreeDataset<R> { *self.dataset }
    pub open spec fn ok(&self) -> bool {
        &&& self.subject.ok() && self.predicate.ok() && self.object.ok() && self.graph.ok()
        &&& self.ds().wf()
    }
    // the stored statements still to be visited that satisfy the constraints
    pub open spec fn left(&self, k: usize) -> bool {
        k >= self.i && self.ds().quads@.dom().contains(k) && self.subject.allows(k) && self.predicate.allows(k, self.ds().quads@[k]) && self.object.allows(k, self.ds().quads@[k]) && self.graph.allows(k, self.ds().quads@[k])
    }
    pub open spec fn at(&self, k: usize) -> Quad<R> { val(self.ds().resources@, self.ds().quads@[k]) }
    pub open spec fn pending(&self, u: Quad<R>) -> bool { exists|k: usize| #[trigger] self.left(k) && self.at(k) == u }
    // the statement at i went, from the iterator and from the dataset; the others are as they were
    pub open spec fn after(a: &Self, b: &Self, i: usize) -> bool {
        &&& a.left(i) && b.ds().quads@ == a.ds().quads@.remove(i)
        &&& steady(a.ds().resources@, b.ds().resources@, b.ds().quads@)
        &&& forall|k: usize| #[trigger] b.left(k) == (a.left(k) && k != i)
    }
    // then it is the one statement no longer pending, and the one no longer stored: with the contract of
    // next, every matching statement is yielded, once, and removed then, and nothing else is
    proof fn took(a: &Self, b: &Self, i: usize)
        requires a.ok(), b.ok(), Self::after(a, b, i)
        ensures a.pending(a.at(i)), a.ds().has(a.at(i)),
            forall|u: Quad<R>| #[trigger] b.pending(u) == (a.pending(u) && u != a.at(i)),
            forall|u: Quad<R>| #[trigger] b.ds().has(u) == (a.ds().has(u) && u != a.at(i)),
    {
        let ra = a.ds().resources@; let rb = b.ds().resources@; let q = a.ds().quads@;
        tr_distinct(a.ds().quads_indexes@, ra, q);
        reveal(steady); holds_use::<R>();
        assert forall|k: usize| q.dom().contains(k) && k != i implies #[trigger] b.at(k) == a.at(k) by { assert(val(rb, b.ds().quads@[k]) == val(ra, b.ds().quads@[k])); }
        assert forall|u: Quad<R>| #[trigger] b.pending(u) == (a.pending(u) && u != a.at(i)) by {
            if a.pending(u) && u != a.at(i) { let k = choose|k: usize| #[trigger] a.left(k) && a.at(k) == u; assert(b.left(k)); assert(b.at(k) == u); }
            if b.pending(u) { let k = choose|k: usize| #[trigger] b.left(k) && b.at(k) == u; assert(a.left(k)); assert(a.at(k) == u); }
        }
        assert forall|u: Quad<R>| #[trigger] b.ds().has(u) == (a.ds().has(u) && u != a.at(i)) by {
            reveal(holds);
            if a.ds().has(u) && u != a.at(i) { let k = choose|k: usize| q.dom().contains(k) && val(ra, #[trigger] q[k]) == u; assert(b.at(k) == a.at(k)); assert(b.ds().quads@.dom().contains(k) && val(rb, b.ds().quads@[k]) == u); }
            if b.ds().has(u) { let k = choose|k: usize| b.ds().quads@.dom().contains(k) && val(rb, #[trigger] b.ds().quads@[k]) == u; assert(b.at(k) == a.at(k)); assert(q.dom().contains(k) && val(ra, q[k]) == u); }
        }
    }
    proof fn pending_law()
        ensures forall|m: Self, tr: TMap, k: usize, u: Quad<R>| #![trigger m.pending(u), tr.dom().contains(k)] m.ds().quads@ == tr && m.left(k) && m.at(k) == u ==> m.pending(u)
    {}
}
impl<'a, R: Clone + Ord> ExtractPatternMatching<'a, R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> | next
//@ ret r
//@ subst `Self::Item` => `Quad<R>`
//@ subst `let Some(&quad) = self.dataset.quads.get(i) else` => `let Some(quad) = self.dataset.quads.get(i).copied() else`
//@ loop 0 invariant self.ok(), self.ds() == old(self).ds(), *final(self.dataset) == *final(old(self).dataset), forall|k: usize| #![trigger self.left(k)] #![trigger old(self).left(k)] self.left(k) == old(self).left(k)
//@| decreases (if self.i < self.ds().quads.spec_capacity() { self.ds().quads.spec_capacity() - self.i } else { 0 })
//@ spec requires old(self).ok()
//@| ensures final(self).ok(), *final(final(self).dataset) == *final(old(self).dataset),
//@|    r is None ==> final(self).ds() == old(self).ds() && forall|u: Quad<R>| !#[trigger] final(self).pending(u) && !#[trigger] old(self).pending(u),
//@|    r is Some ==> exists|k: usize| #[trigger] old(self).ds().quads@.dom().contains(k) && ExtractPatternMatching::after(old(self), final(self), k) && r->0 == old(self).at(k)
//@ proof self.ds().quads.keyed(); tins_use::<R>();
//@end
}
impl<R: Ord> IndexedBTreeDataset<R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | extract_pattern_matching
//@ ret r
//@ spec requires old(self).wf()
//@| ensures r.ok(), r.ds() == *old(self), *final(r.dataset) == *final(self), forall|u: Quad<R>| #[trigger] r.pending(u) == (old(self).has(u) && sat($1, u))
//@ proof holds_use::<R>(); ExtractPatternMatching::<R>::pending_law();
//@end
}
}
