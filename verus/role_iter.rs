#[verifier::reject_recursive_types(R)]
//@item @F@ | @C@ | `std::collections::btree_set::Iter<'a, usize>` => `SetIter<'a>`
impl<'a, R> @C@<'a, R> {
    pub open spec fn ok(&self) -> bool {
        forall|i: int| 0 <= i < self.indexes.rest().len() ==> self.resources@.dom().contains(#[trigger] self.indexes.rest()[i])
    }
    pub open spec fn rest(&self) -> Seq<R> { rlisting(self.indexes.rest(), self.resources@) }
//@fn @F@ | impl<'a, R> Iterator for @C@<'a, R> | next
//@ ret r
//@ inline 0
//@ subst `Self::Item` => `&'a R`
//@ spec requires old(self).ok()
//@| ensures final(self).ok(), stepr(old(self).rest(), final(self).rest(), r)
//@ proof listing_skip::<R>();
//@end
}
impl<R: Ord> @S@<R> {
//@fn @F@ | impl<R> @S@<R> | @c@
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), r.rest().no_duplicates(), forall|v: R| #[trigger] r.rest().contains(v) == placed(self.resources@, self.@ts@@, v, @N@),
//@|    r.rest() == rlisting(self.@c@.order(), self.resources@)
//@ proof self.@c@.ordered(); role_listing(self.@c@.order(), self.@c@@, self.resources_indexes@, self.resources@, self.@ts@@, @N@);
//@end
//@fn @F@ | @CT@
//@ ret r
//@ spec requires self.wf()
//@| ensures r == rlisting(self.@c@.order(), self.resources@).len()
//@ proof self.@c@.ordered();
//@end
}
impl<R: Ord> @S@<R> {
//@fn @F@ | @TI@ | @gp@@c@
//@ as trait_@c@
//@ subst `Self::@GP@@C@<'_>` => `@C@<'_, R>`
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), r.rest().no_duplicates(), forall|v: R| #[trigger] r.rest().contains(v) == placed(self.resources@, self.@ts@@, v, @N@),
//@|    r.rest() == rlisting(self.@c@.order(), self.resources@)
//@end
}
