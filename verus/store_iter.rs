// ---- creation, size, iteration, comparison (shared by the four stores; @S@ is the store)
impl<R: Ord> @S@<R> {
    pub open spec fn list(&self) -> Seq<@T@<R>> { listing(self.@ts@_indexes@, self.resources@, self.@ts@@) }
    // the listings are strictly increasing and list exactly the stored statements and resources
    pub proof fn listed(&self)
        requires self.base()
        ensures increasing(self.list()), forall|u: @T@<R>| #![trigger self.list().contains(u)] #![trigger self.has(u)] self.list().contains(u) == self.has(u), self.list().len() == self.@ts@@.dom().len(),
            rincreasing(self.rlist()), forall|v: R| #[trigger] self.rlist().contains(v) == known(self.resources@, v), self.rlist().len() == self.resources@.dom().len()
    { listing_ok(self.@ts@_indexes@, self.resources@, self.@ts@@); rlisting_ok(self.resources_indexes@, self.resources@); }
    // the stored resources are exactly those some statement mentions
    pub proof fn all_used(&self)
        requires self.wf()
        ensures forall|v: R| #[trigger] known(self.resources@, v) == used(self.resources@, self.@ts@@, v)
    { self.is_busy(); known_is_used(self.resources@, self.@ts@@); }
    // a store just made holds nothing
    pub proof fn clear_wf(&self)
        requires self.clear()
        ensures self.wf(), forall|u: @T@<R>| !#[trigger] self.has(u)
    { reveal(rix); reveal(tins); reveal(tix); reveal(holds); @CLEAR@ }
    pub open spec fn rlist(&self) -> Seq<R> { rlisting(self.resources_indexes@, self.resources@) }
}
impl<R> @S@<R> {
//@fn @F@ | impl<R> Default for @S@<R> | default
//@ ret r
//@ spec ensures r.clear()
//@end
//@fn @F@ | impl<R> @S@<R> | new
//@ ret r
//@ spec ensures r.clear()
//@end
}
#[verifier::reject_recursive_types(R)]
//@item @F@ | @Ts@ | `raw_btree::Iter` => `RawIter`
#[verifier::reject_recursive_types(R)]
//@item @F@ | IntoTriples | `raw_btree::IntoIter` => `RawIntoIter`
#[verifier::reject_recursive_types(R)]
//@item @F@ | Resources | `raw_btree::Iter` => `RawIter`
impl<'a, R> @Ts@<'a, R> {
    pub open spec fn ok(&self) -> bool {
        &&& tins(self.resources@, self.@ts@@)
        &&& forall|i: int| 0 <= i < self.indexes.rest().len() ==> self.@ts@@.dom().contains(#[trigger] self.indexes.rest()[i])
    }
    pub open spec fn rest(&self) -> Seq<@T@<R>> { listing(self.indexes.rest(), self.resources@, self.@ts@@) }
//@fn @F@ | impl<'a, R> Iterator for @Ts@<'a, R> | next
//@ ret r
//@ inline 0
//@ subst `Self::Item` => `@T@<&'a R>`
//@ spec requires old(self).ok()
//@| ensures final(self).ok(), stepd(old(self).rest(), final(self).rest(), r)
//@ proof listing_skip::<R>(); tins_use::<R>();
//@end
}
impl<'a, R> Resources<'a, R> {
    pub open spec fn ok(&self) -> bool {
        forall|i: int| 0 <= i < self.indexes.rest().len() ==> self.resources@.dom().contains(#[trigger] self.indexes.rest()[i])
    }
    pub open spec fn rest(&self) -> Seq<R> { rlisting(self.indexes.rest(), self.resources@) }
//@fn @F@ | impl<'a, R> Iterator for Resources<'a, R> | next
//@ ret r
//@ inline 0
//@ subst `Self::Item` => `&'a R`
//@ spec requires old(self).ok()
//@| ensures final(self).ok(), stepr(old(self).rest(), final(self).rest(), r)
//@ proof listing_skip::<R>();
//@end
}
impl<R> IntoTriples<R> {
    // the indexes left are distinct and stored
    pub open spec fn ok(&self) -> bool {
        &&& tins(self.resources@, self.@ts@@)
        &&& self.indexes.rest().no_duplicates()
        &&& forall|i: int| 0 <= i < self.indexes.rest().len() ==> self.@ts@@.dom().contains(#[trigger] self.indexes.rest()[i])
    }
    pub open spec fn rest(&self) -> Seq<@T@<R>> { listing(self.indexes.rest(), self.resources@, self.@ts@@) }
}
impl<R: Clone> IntoTriples<R> {
//@fn @F@ | impl<R: Clone> Iterator for IntoTriples<R> | next
//@ ret r
//@ inline 0
//@ subst `Self::Item` => `@T@<R>`
//@ spec requires old(self).ok()
//@| ensures final(self).ok(), step(old(self).rest(), final(self).rest(), r)
//@ proof listing_skip::<R>(); listing_forget::<R>(); tins_use::<R>(); tr_remove_laws0::<R>();
//@end
}
impl<R: Ord> @S@<R> {
//@fn @F@ | impl<R> @S@<R> | iter
//@ ret r
//@ spec requires self.base()
//@| ensures r.ok(), r.rest() == self.list(), increasing(r.rest()), forall|u: @T@<R>| #[trigger] r.rest().contains(u) == self.has(u)
//@ proof tix_use::<R>(); self.listed();
//@end
//@fn @F@ | impl<R> @S@<R> | resources
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), r.rest() == self.rlist(), rincreasing(r.rest()), forall|v: R| #[trigger] r.rest().contains(v) == used(self.resources@, self.@ts@@, v)
//@ proof rix_use::<R>(); self.listed(); self.all_used();
//@end
//@fn @F@ | impl<'a, R> IntoIterator for &'a @S@<R> | into_iter
//@ as ref_into_iter
//@ subst `(self)` => `(&self)`
//@ subst `Self::IntoIter` => `@Ts@<'_, R>`
//@ ret r
//@ spec requires self.base()
//@| ensures r.ok(), r.rest() == self.list(), increasing(r.rest()), forall|u: @T@<R>| #[trigger] r.rest().contains(u) == self.has(u)
//@end
//@fn @F@ | impl<R: Clone> IntoIterator for @S@<R> | into_iter
//@ subst `Self::IntoIter` => `IntoTriples<R>`
//@ ret r
//@ spec requires self.base()
//@| ensures r.ok(), r.rest() == self.list(), increasing(r.rest()), forall|u: @T@<R>| #[trigger] r.rest().contains(u) == self.has(u)
//@ proof tix_use::<R>(); tix_distinct::<R>(); self.listed();
//@end
//@fn @F@ | impl<R> @S@<R> | len
//@ ret r
//@ spec requires self.base()
//@| ensures r == self.list().len()
//@ proof self.listed();
//@end
//@fn @F@ | impl<R> @S@<R> | is_empty
//@ ret r
//@ spec requires self.base()
//@| ensures r == (forall|u: @T@<R>| !#[trigger] self.has(u)), r == (self.list().len() == 0)
//@ proof self.listed(); is_empty_law(self.list());
//@end
//@fn @F@ | @EQ@ | eq
//@ subst `@EQT@` => `Self`
//@ subst `a == b` => `a.same(&b)`
//@ closure 0 ((@T@<&R>, @T@<&R>)) -> o: bool ensures o == (derefs(c0.0) == derefs(c0.1))
//@ ret r
//@ spec requires self.base(), $1.base()
//@| ensures r == (forall|u: @T@<R>| #![trigger self.has(u)] #![trigger $1.has(u)] self.has(u) == $1.has(u))
//@ proof self.listed(); $1.listed(); eq_law(self.list(), $1.list());
//@end
//@fn @F@ | impl<R: PartialOrd> PartialOrd for @S@<R> | partial_cmp
//@ ret r
//@ spec requires self.base(), $1.base()
//@| ensures r == Some(lex(self.list(), $1.list()))
//@end
//@fn @F@ | impl<R: Ord> Ord for @S@<R> | cmp
//@ ret r
//@ spec requires self.base(), $1.base()
//@| ensures r == lex(self.list(), $1.list())
//@end
//@fn @F@ | impl<R: Hash> Hash for @S@<R> | hash
//@ subst `std::hash::Hasher` => `Hasher`
//@ into 0 Self::ref_into_iter
//@ loop 0 invariant __it0.ok(), after($1.log(), __it0.rest()) == after(old($1).log().push(self.list().len() as int), self.list())
//@| decreases __it0.rest().len()
//@ spec requires self.base()
//@| ensures final($1).log() == after(old($1).log().push(self.list().len() as int), self.list())
//@ proof fed_laws::<R>();
//@end
}
impl<R: Clone + Ord> @S@<R> {
//@fn @F@ | impl<R: Clone + Ord> Extend<@T@<R>> for @S@<R> | extend
//@ loop 0 invariant self.wf(), forall|u: @T@<R>| #![trigger self.has(u)] #![trigger old(self).has(u)] (self.has(u) || __it0.rest().contains(u)) == (old(self).has(u) || $1.items().contains(u))
//@| decreases __it0.rest().len()
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), forall|u: @T@<R>| #[trigger] final(self).has(u) == (old(self).has(u) || $1.items().contains(u))
//@ proof contains_skip::<R>();
//@end
//@fn @F@ | impl<R: Clone + Ord> FromIterator<@T@<R>> for @S@<R> | from_iter
//@ ret r
//@ spec ensures r.wf(), forall|u: @T@<R>| #[trigger] r.has(u) == $0.items().contains(u)
//@ proof all_clear_wf::<R>();
//@end
}
// An equal comparison means the same set, and stores of one set compare equal.
pub proof fn cmp_is_content<R: Ord>(a: &@S@<R>, b: &@S@<R>)
    requires a.base(), b.base()
    ensures (lex(a.list(), b.list()) == Ordering::Equal) == (forall|u: @T@<R>| #![trigger a.has(u)] #![trigger b.has(u)] a.has(u) == b.has(u))
{
    a.listed(); b.listed(); eq_law(a.list(), b.list()); lex_eq(a.list(), b.list());
}
// the same operations through the traits
impl<R: Ord> @S@<R> {
//@fn @F@ | impl<R> Traversable@G@ for @S@<R> | @ts@
//@ as trait_@ts@
//@ subst `Self::@Ts@<'_>` => `@Ts@<'_, R>`
//@ ret r
//@ spec requires self.base()
//@| ensures r.ok(), r.rest() == self.list(), increasing(r.rest()), forall|u: @T@<R>| #[trigger] r.rest().contains(u) == self.has(u)
//@end
//@fn @F@ | impl<R> ResourceTraversable@G@ for @S@<R> | @gp@resources
//@ as trait_resources
//@ subst `Self::@GP@Resources<'_>` => `Resources<'_, R>`
//@ ret r
//@ spec requires self.wf()
//@| ensures r.ok(), r.rest() == self.rlist(), rincreasing(r.rest()), forall|v: R| #[trigger] r.rest().contains(v) == used(self.resources@, self.@ts@@, v)
//@end
}
impl<R: Clone + Ord> @S@<R> {
//@fn @F@ | impl<R: Clone + Ord> @G@Mut for @S@<R> | insert
//@ as trait_insert
//@ subst `Self::Resource` => `R`
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), forall|u: @T@<R>| #[trigger] final(self).has(u) <==> old(self).has(u) || u == $1
//@end
//@fn @F@ | impl<R: Clone + Ord> @G@Mut for @S@<R> | remove
//@ as trait_remove
//@ subst `Self::Resource` => `R`
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), forall|u: @T@<R>| #[trigger] final(self).has(u) <==> old(self).has(u) && u != derefs($1)
//@end
}
