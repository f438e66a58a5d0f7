// the first index from i on that the subject constraint allows
impl@IG@ SubjectConstraints@A@ {
    pub open spec fn ok(&self) -> bool { match self { SubjectConstraints::Fixed(x) => sorted(x.rest()), _ => true } }
    pub open spec fn allows(&self, k: usize) -> bool {
        match self { SubjectConstraints::None => false, SubjectConstraints::Any => true, SubjectConstraints::Fixed(x) => x.rest().contains(k) }
    }
//@fn @F@ | impl@IG@ SubjectConstraints@A@ | next
//@ ret r
//@ loop 0 invariant sorted(@X0@.rest()), forall|k: usize| #![trigger @X0@.rest().contains(k)] #![trigger old(self).allows(k)] k >= $1 ==> @X0@.rest().contains(k) == old(self).allows(k)
//@| decreases @X0@.rest().len()
//@ spec requires old(self).ok()
//@| ensures final(self).ok(),
//@|    forall|k: usize| k >= $1 ==> #[trigger] final(self).allows(k) == old(self).allows(k),
//@|    r is None ==> forall|k: usize| k >= $1 ==> !#[trigger] old(self).allows(k),
//@|    r is Some ==> r->0 >= $1 && (r->0 == $1 || r->0 < cap_bound()) && old(self).allows(r->0) && forall|k: usize| $1 <= k < r->0 ==> !#[trigger] old(self).allows(k)
//@ proof sorted_skip();
//@end
}
impl@IG@ PredicateConstraints@A@ {
    pub open spec fn ok(&self) -> bool { match self { PredicateConstraints::Fixed(x) => sorted(x.rest()), _ => true } }
    pub open spec fn allows(&self, k: usize, t: @T@<usize>) -> bool {
        match self { PredicateConstraints::None => false, PredicateConstraints::Any => true, PredicateConstraints::SameAsSubject => t.0 == t.1, PredicateConstraints::Fixed(x) => x.rest().contains(k) }
    }
//@fn @F@ | impl@IG@ PredicateConstraints@A@ | next
//@ ret r
//@ loop 0 invariant sorted(@X0@.rest()), forall|k: usize| #![trigger @X0@.rest().contains(k)] #![trigger old(self)->Fixed_0.rest().contains(k)] k >= $1 ==> @X0@.rest().contains(k) == old(self)->Fixed_0.rest().contains(k)
//@| decreases @X0@.rest().len()
//@ spec requires old(self).ok()
//@| ensures final(self).ok(),
//@|    forall|k: usize, t: @T@<usize>| k >= $1 ==> #[trigger] final(self).allows(k, t) == old(self).allows(k, t),
//@|    r is Ok ==> old(self).allows($1, $2),
//@|    r == Err::<(), Option<usize>>(None) ==> !old(self).allows($1, $2) && forall|k: usize, t: @T@<usize>| k > $1 ==> !#[trigger] old(self).allows(k, t),
//@|    r is Err && r->Err_0 is Some ==> r->Err_0->0 > $1 && !old(self).allows($1, $2) && forall|k: usize, t: @T@<usize>| $1 < k < r->Err_0->0 ==> !#[trigger] old(self).allows(k, t),
//@ proof sorted_skip();
//@end
}
impl@IG@ ObjectConstraints@A@ {
    pub open spec fn ok(&self) -> bool { match self { ObjectConstraints::Fixed(x) => sorted(x.rest()), _ => true } }
    pub open spec fn allows(&self, k: usize, t: @T@<usize>) -> bool {
        match self { ObjectConstraints::None => false, ObjectConstraints::Any => true, ObjectConstraints::SameAsSubject => t.0 == t.2, ObjectConstraints::SameAsPredicate => t.1 == t.2, ObjectConstraints::Fixed(x) => x.rest().contains(k) }
    }
//@fn @F@ | impl@IG@ ObjectConstraints@A@ | next
//@ ret r
//@ loop 0 invariant sorted(@X0@.rest()), forall|k: usize| #![trigger @X0@.rest().contains(k)] #![trigger old(self)->Fixed_0.rest().contains(k)] k >= $1 ==> @X0@.rest().contains(k) == old(self)->Fixed_0.rest().contains(k)
//@| decreases @X0@.rest().len()
//@ spec requires old(self).ok()
//@| ensures final(self).ok(),
//@|    forall|k: usize, t: @T@<usize>| k >= $1 ==> #[trigger] final(self).allows(k, t) == old(self).allows(k, t),
//@|    r is Ok ==> old(self).allows($1, $2),
//@|    r == Err::<(), Option<usize>>(None) ==> !old(self).allows($1, $2) && forall|k: usize, t: @T@<usize>| k > $1 ==> !#[trigger] old(self).allows(k, t),
//@|    r is Err && r->Err_0 is Some ==> r->Err_0->0 > $1 && !old(self).allows($1, $2) && forall|k: usize, t: @T@<usize>| $1 < k < r->Err_0->0 ==> !#[trigger] old(self).allows(k, t),
//@ proof sorted_skip();
//@end
}
