// ---- canonical triple patterns: the enums of pattern/triple/canonical.rs, and what each asks of the
// components of a statement (T is the type of the components, references being the values they refer to)
//@item pattern/triple/canonical.rs | PatternSubject
//@item pattern/triple/canonical.rs | PatternPredicate
//@item pattern/triple/canonical.rs | PatternObject
//@item pattern/triple/canonical.rs | CanonicalTriplePattern | #[derive(Clone, Copy)]
//@item pattern/triple/canonical.rs | AnySubject | #[derive(Clone, Copy)]
//@item pattern/triple/canonical.rs | AnySubjectAnyPredicate | #[derive(Clone, Copy)]
//@item pattern/triple/canonical.rs | AnySubjectGivenPredicate | #[derive(Clone, Copy)]
//@item pattern/triple/canonical.rs | GivenSubject | #[derive(Clone, Copy)]
//@item pattern/triple/canonical.rs | GivenSubjectAnyPredicate | #[derive(Clone, Copy)]
//@item pattern/triple/canonical.rs | GivenSubjectGivenPredicate | #[derive(Clone, Copy)]
pub open spec fn sat_s<T>(c: PatternSubject<T>, s: T) -> bool {
    match c { PatternSubject::Any => true, PatternSubject::Given(r) => s == r }
}
pub open spec fn sat_p<T>(c: PatternPredicate<T>, s: T, p: T) -> bool {
    match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => p == s, PatternPredicate::Given(r) => p == r }
}
pub open spec fn sat_o<T>(c: PatternObject<T>, s: T, p: T, o: T) -> bool {
    match c { PatternObject::Any => true, PatternObject::SameAsSubject => o == s, PatternObject::SameAsPredicate => o == p, PatternObject::Given(r) => o == r }
}
pub open spec fn sat_asap<T>(c: AnySubjectAnyPredicate<T>, s: T, p: T, o: T) -> bool {
    match c {
        AnySubjectAnyPredicate::AnyObject => true, AnySubjectAnyPredicate::SameAsSubject => o == s,
        AnySubjectAnyPredicate::SameAsPredicate => o == p, AnySubjectAnyPredicate::GivenObject(r) => o == r,
    }
}
pub open spec fn sat_asgp<T>(c: AnySubjectGivenPredicate<T>, s: T, p: T, o: T) -> bool {
    match c { AnySubjectGivenPredicate::AnyObject => true, AnySubjectGivenPredicate::SameAsSubject => o == s, AnySubjectGivenPredicate::GivenObject(r) => o == r }
}
pub open spec fn sat_gsap<T>(c: GivenSubjectAnyPredicate<T>, s: T, p: T, o: T) -> bool {
    match c { GivenSubjectAnyPredicate::AnyObject => true, GivenSubjectAnyPredicate::SameAsPredicate => o == p, GivenSubjectAnyPredicate::GivenObject(r) => o == r }
}
pub open spec fn sat_gsgp<T>(c: GivenSubjectGivenPredicate<T>, s: T, p: T, o: T) -> bool {
    match c { GivenSubjectGivenPredicate::AnyObject => true, GivenSubjectGivenPredicate::GivenObject(r) => o == r }
}
pub open spec fn sat_as<T>(c: AnySubject<T>, s: T, p: T, o: T) -> bool {
    match c {
        AnySubject::AnyPredicate(q) => sat_asap(q, s, p, o), AnySubject::SameAsSubject(q) => p == s && sat_asgp(q, s, p, o),
        AnySubject::GivenPredicate(r, q) => p == r && sat_asgp(q, s, p, o),
    }
}
pub open spec fn sat_gs<T>(c: GivenSubject<T>, s: T, p: T, o: T) -> bool {
    match c { GivenSubject::AnyPredicate(q) => sat_gsap(q, s, p, o), GivenSubject::GivenPredicate(r, q) => p == r && sat_gsgp(q, s, p, o) }
}
// the statement s p o matches the pattern
pub open spec fn sat<T>(c: CanonicalTriplePattern<T>, s: T, p: T, o: T) -> bool {
    match c { CanonicalTriplePattern::AnySubject(q) => sat_as(q, s, p, o), CanonicalTriplePattern::GivenSubject(r, q) => s == r && sat_gs(q, s, p, o) }
}
// what a pattern asks of the predicate
pub open spec fn sat_asp<T>(c: AnySubject<T>, s: T, p: T) -> bool {
    match c { AnySubject::AnyPredicate(q) => true, AnySubject::SameAsSubject(q) => p == s, AnySubject::GivenPredicate(r, q) => p == r }
}
pub open spec fn sat_gsp<T>(c: GivenSubject<T>, p: T) -> bool {
    match c { GivenSubject::AnyPredicate(q) => true, GivenSubject::GivenPredicate(r, q) => p == r }
}
impl<T> AnySubjectAnyPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures forall|s: T, p: T, o: T| #[trigger] sat_o(r, s, p, o) == sat_asap(self, s, p, o)
//@end
}
impl<T> AnySubjectGivenPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures forall|s: T, p: T, o: T| #[trigger] sat_o(r, s, p, o) == sat_asgp(self, s, p, o)
//@end
}
impl<T> GivenSubjectAnyPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures forall|s: T, p: T, o: T| #[trigger] sat_o(r, s, p, o) == sat_gsap(self, s, p, o)
//@end
}
impl<T> GivenSubjectGivenPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures forall|s: T, p: T, o: T| #[trigger] sat_o(r, s, p, o) == sat_gsgp(self, s, p, o)
//@end
}
impl<T> AnySubject<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | into_predicate
//@ ret r
//@ spec ensures forall|s: T, p: T| #[trigger] sat_p(r, s, p) == sat_asp(self, s, p)
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | into_object
//@ ret r
//@ spec ensures forall|s: T, p: T, o: T| sat_asp(self, s, p) ==> #[trigger] sat_o(r, s, p, o) == sat_as(self, s, p, o)
//@end
}
impl<T> GivenSubject<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | into_predicate
//@ ret r
//@ spec ensures forall|s: T, p: T| #[trigger] sat_p(r, s, p) == sat_gsp(self, p)
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | into_object
//@ ret r
//@ spec ensures forall|s: T, p: T, o: T| sat_gsp(self, p) ==> #[trigger] sat_o(r, s, p, o) == sat_gs(self, s, p, o)
//@end
}
impl<T> CanonicalTriplePattern<T> {
    // what the pattern asks of each component, read off the pattern
    pub open spec fn subj(self, s: T) -> bool { self is GivenSubject ==> s == self->GivenSubject_0 }
    pub open spec fn pred(self, s: T, p: T) -> bool { match self { CanonicalTriplePattern::AnySubject(q) => sat_asp(q, s, p), CanonicalTriplePattern::GivenSubject(r, q) => sat_gsp(q, p) } }
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | into_subject
//@ ret r
//@ spec ensures forall|s: T| #[trigger] sat_s(r, s) == self.subj(s)
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | into_predicate
//@ ret r
//@ spec ensures forall|s: T, p: T| #[trigger] sat_p(r, s, p) == self.pred(s, p)
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | into_object
//@ ret r
//@ spec ensures forall|s: T, p: T, o: T| self.subj(s) && self.pred(s, p) ==> #[trigger] sat_o(r, s, p, o) == sat(self, s, p, o),
//@|   forall|s: T, p: T, o: T| #[trigger] sat(self, s, p, o) ==> self.subj(s) && self.pred(s, p)
//@end
}
