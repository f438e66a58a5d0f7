impl@IG@ GraphConstraints@A@ {
    pub open spec fn ok(&self) -> bool { match self { GraphConstraints::Fixed(x) => sorted(x.rest()), _ => true } }
    pub open spec fn allows(&self, k: usize, t: @T@<usize>) -> bool {
        match self { GraphConstraints::None => false, GraphConstraints::Any => true, GraphConstraints::SameAsSubject => Some(t.0) == t.3, GraphConstraints::SameAsPredicate => Some(t.1) == t.3, GraphConstraints::SameAsObject => Some(t.2) == t.3, GraphConstraints::Fixed(x) => x.rest().contains(k) }
    }
//@fn @F@ | impl@IG@ GraphConstraints@A@ | next
//@ ret r
//@ loop 0 invariant sorted(@X0@.rest()), forall|k: usize| #![trigger @X0@.rest().contains(k)] #![trigger old(self)->Fixed_0.rest().contains(k)] k >= $1 ==> @X0@.rest().contains(k) == old(self)->Fixed_0.rest().contains(k)
//@| decreases @X0@.rest().len()
//@ spec requires old(self).ok()
//@| ensures final(self).ok(),
//@|    forall|k: usize, t: @T@<usize>| k >= $1 ==> #[trigger] final(self).allows(k, t) == old(self).allows(k, t),
//@|    r is Ok ==> old(self).allows($1, $2),
//@|    r == Err::<(), Option<usize>>(None) ==> !old(self).allows($1, $2) && forall|k: usize, t: @T@<usize>| k > $1 ==> !#[trigger] old(self).allows(k, t),
//@|    r is Err && r->Err_0 is Some ==> r->Err_0->0 > $1 && !old(self).allows($1, $2) && forall|k: usize, t: @T@<usize>| $1 < k < r->Err_0->0 ==> !#[trigger] old(self).allows(k, t),
//@ proof sorted_skip();
//@end
}
