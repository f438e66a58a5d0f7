impl<'a, R: Ord> @S@<'a, R> {
    pub open spec fn ok(&self) -> bool {
        &&& self.subject.ok() && self.predicate.ok() && self.object.ok() && self.graph.ok()
        &&& tins(self.resources@, self.quads@)
        &&& has_order(self.resources@, self.quads@)
    }
    // the stored statements still to be visited that satisfy the constraints
    pub open spec fn left(&self, k: usize) -> bool {
        k >= self.i && self.quads@.dom().contains(k) && self.subject.allows(k) && self.predicate.allows(k, self.quads@[k]) && self.object.allows(k, self.quads@[k]) && self.graph.allows(k, self.quads@[k])
    }
    pub open spec fn pending(&self, u: Quad<R>) -> bool {
        exists|k: usize| #[trigger] self.left(k) && val(self.resources@, self.quads@[k]) == u
    }
    // only the statement at i went
    pub open spec fn after(a: &Self, b: &Self, i: usize) -> bool {
        &&& a.left(i) && b.resources == a.resources && b.quads == a.quads
        &&& forall|k: usize| #[trigger] b.left(k) == (a.left(k) && k != i)
    }
    // then it is the one statement that is no longer pending: with the contract of next, every matching
    // statement is yielded, once, and nothing else is
    proof fn took(a: &Self, b: &Self, i: usize)
        requires a.ok(), Self::after(a, b, i)
        ensures a.pending(val(a.resources@, a.quads@[i])), forall|u: Quad<R>| #[trigger] b.pending(u) == (a.pending(u) && u != val(a.resources@, a.quads@[i]))
    {
        tr_distinct_any(a.resources@, a.quads@);
        assert forall|u: Quad<R>| a.pending(u) && u != val(a.resources@, a.quads@[i]) implies #[trigger] b.pending(u) by {
            let k = choose|k: usize| #[trigger] a.left(k) && val(a.resources@, a.quads@[k]) == u;
            assert(b.left(k));
        }
    }
    proof fn pending_law()
        ensures forall|m: Self, tr: TMap, k: usize, u: Quad<R>| #![trigger m.pending(u), tr.dom().contains(k)] m.quads@ == tr && m.left(k) && val(m.resources@, m.quads@[k]) == u ==> m.pending(u)
    {}
//@fn dataset/impl/indexed_btree_dataset.rs | impl<'a, R> Iterator for @S@<'a, R> | next
//@ ret r
//@ subst `Self::Item` => `Quad<&'a R>`
//@ subst `let Some(&quad) = self.quads.get(i) else` => `let Some(quad) = self.quads.get(i).copied() else`
//@ loop 0 invariant self.ok(), self.resources == old(self).resources, self.quads == old(self).quads, forall|k: usize| #![trigger self.left(k)] #![trigger old(self).left(k)] self.left(k) == old(self).left(k)
//@| decreases (if self.i < self.quads.spec_capacity() { self.quads.spec_capacity() - self.i } else { 0 })
//@ spec requires old(self).ok()
//@| ensures final(self).ok(), final(self).resources == old(self).resources, final(self).quads == old(self).quads,
//@|    r is None ==> forall|u: Quad<R>| !#[trigger] final(self).pending(u) && !#[trigger] old(self).pending(u),
//@|    r is Some ==> exists|k: usize| #[trigger] old(self).quads@.dom().contains(k) && @S@::after(old(self), final(self), k) && derefs(r->0) == val(old(self).resources@, old(self).quads@[k])
//@ proof self.quads.keyed(); tins_use::<R>();
//@end
}
