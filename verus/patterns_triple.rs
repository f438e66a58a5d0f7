// (written by tools/mkpatterns.py)
//@item pattern/triple/canonical.rs | PatternSubject
//@item pattern/triple/canonical.rs | PatternPredicate
//@item pattern/triple/canonical.rs | PatternObject
//@item pattern/triple/canonical.rs | CanonicalTriplePattern
//@item pattern/triple/canonical.rs | AnySubject
//@item pattern/triple/canonical.rs | GivenSubject
//@item pattern/triple/canonical.rs | AnySubjectAnyPredicate
//@item pattern/triple/canonical.rs | AnySubjectGivenPredicate
//@item pattern/triple/canonical.rs | GivenSubjectAnyPredicate
//@item pattern/triple/canonical.rs | GivenSubjectGivenPredicate
impl<T> CanonicalTriplePattern<T> {
    pub open spec fn sp(self) -> PatternSubject<T> { match self { CanonicalTriplePattern::AnySubject(q) => PatternSubject::Any, CanonicalTriplePattern::GivenSubject(r, q) => PatternSubject::Given(r) } }
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { CanonicalTriplePattern::AnySubject(q) => q.pp(), CanonicalTriplePattern::GivenSubject(r, q) => q.pp() } }
    pub open spec fn op(self) -> PatternObject<T> { match self { CanonicalTriplePattern::AnySubject(q) => q.op(), CanonicalTriplePattern::GivenSubject(r, q) => q.op() } }
}
impl<T> AnySubject<T> {
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { AnySubject::AnyPredicate(q) => PatternPredicate::Any, AnySubject::SameAsSubject(q) => PatternPredicate::SameAsSubject, AnySubject::GivenPredicate(r, q) => PatternPredicate::Given(r) } }
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubject::AnyPredicate(q) => q.op(), AnySubject::SameAsSubject(q) => q.op(), AnySubject::GivenPredicate(r, q) => q.op() } }
}
impl<T> GivenSubject<T> {
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { GivenSubject::AnyPredicate(q) => PatternPredicate::Any, GivenSubject::GivenPredicate(r, q) => PatternPredicate::Given(r) } }
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubject::AnyPredicate(q) => q.op(), GivenSubject::GivenPredicate(r, q) => q.op() } }
}
impl<T> AnySubjectAnyPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubjectAnyPredicate::AnyObject => PatternObject::Any, AnySubjectAnyPredicate::SameAsSubject => PatternObject::SameAsSubject, AnySubjectAnyPredicate::SameAsPredicate => PatternObject::SameAsPredicate, AnySubjectAnyPredicate::GivenObject(r) => PatternObject::Given(r) } }
}
impl<T> AnySubjectGivenPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubjectGivenPredicate::AnyObject => PatternObject::Any, AnySubjectGivenPredicate::SameAsSubject => PatternObject::SameAsSubject, AnySubjectGivenPredicate::GivenObject(r) => PatternObject::Given(r) } }
}
impl<T> GivenSubjectAnyPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubjectAnyPredicate::AnyObject => PatternObject::Any, GivenSubjectAnyPredicate::SameAsPredicate => PatternObject::SameAsPredicate, GivenSubjectAnyPredicate::GivenObject(r) => PatternObject::Given(r) } }
}
impl<T> GivenSubjectGivenPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubjectGivenPredicate::AnyObject => PatternObject::Any, GivenSubjectGivenPredicate::GivenObject(r) => PatternObject::Given(r) } }
}
pub open spec fn deref_sp<T>(c: PatternSubject<&T>) -> PatternSubject<T> { match c { PatternSubject::Any => PatternSubject::Any, PatternSubject::Given(x) => PatternSubject::Given(*x) } }
pub open spec fn rel_sp<T, U>(a: PatternSubject<T>, b: PatternSubject<U>, f: spec_fn(T, U) -> bool) -> bool { match (a, b) { (PatternSubject::Any, PatternSubject::Any) => true, (PatternSubject::Given(x), PatternSubject::Given(y)) => f(x, y), _ => false } }
pub open spec fn rel2_sp<T, U, V>(a: PatternSubject<T>, b: PatternSubject<U>, c: PatternSubject<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { (PatternSubject::Any, PatternSubject::Any, PatternSubject::Any) => true, (PatternSubject::Given(x), PatternSubject::Given(y), PatternSubject::Given(z)) => f(x, y, z), _ => false } }
pub open spec fn deref_pp<T>(c: PatternPredicate<&T>) -> PatternPredicate<T> { match c { PatternPredicate::Any => PatternPredicate::Any, PatternPredicate::SameAsSubject => PatternPredicate::SameAsSubject, PatternPredicate::Given(x) => PatternPredicate::Given(*x) } }
pub open spec fn rel_pp<T, U>(a: PatternPredicate<T>, b: PatternPredicate<U>, f: spec_fn(T, U) -> bool) -> bool { match (a, b) { (PatternPredicate::Any, PatternPredicate::Any) => true, (PatternPredicate::SameAsSubject, PatternPredicate::SameAsSubject) => true, (PatternPredicate::Given(x), PatternPredicate::Given(y)) => f(x, y), _ => false } }
pub open spec fn rel2_pp<T, U, V>(a: PatternPredicate<T>, b: PatternPredicate<U>, c: PatternPredicate<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { (PatternPredicate::Any, PatternPredicate::Any, PatternPredicate::Any) => true, (PatternPredicate::SameAsSubject, PatternPredicate::SameAsSubject, PatternPredicate::SameAsSubject) => true, (PatternPredicate::Given(x), PatternPredicate::Given(y), PatternPredicate::Given(z)) => f(x, y, z), _ => false } }
pub open spec fn deref_op<T>(c: PatternObject<&T>) -> PatternObject<T> { match c { PatternObject::Any => PatternObject::Any, PatternObject::SameAsSubject => PatternObject::SameAsSubject, PatternObject::SameAsPredicate => PatternObject::SameAsPredicate, PatternObject::Given(x) => PatternObject::Given(*x) } }
pub open spec fn rel_op<T, U>(a: PatternObject<T>, b: PatternObject<U>, f: spec_fn(T, U) -> bool) -> bool { match (a, b) { (PatternObject::Any, PatternObject::Any) => true, (PatternObject::SameAsSubject, PatternObject::SameAsSubject) => true, (PatternObject::SameAsPredicate, PatternObject::SameAsPredicate) => true, (PatternObject::Given(x), PatternObject::Given(y)) => f(x, y), _ => false } }
pub open spec fn rel2_op<T, U, V>(a: PatternObject<T>, b: PatternObject<U>, c: PatternObject<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { (PatternObject::Any, PatternObject::Any, PatternObject::Any) => true, (PatternObject::SameAsSubject, PatternObject::SameAsSubject, PatternObject::SameAsSubject) => true, (PatternObject::SameAsPredicate, PatternObject::SameAsPredicate, PatternObject::SameAsPredicate) => true, (PatternObject::Given(x), PatternObject::Given(y), PatternObject::Given(z)) => f(x, y, z), _ => false } }
pub open spec fn of_sp<T, X: PartialEq>(s: ResourceOrVar<T, X>) -> PatternSubject<T> { match s { ResourceOrVar::Resource(x) => PatternSubject::Given(x), ResourceOrVar::Var(v) => PatternSubject::Any } }
pub open spec fn of_pp<T, X: PartialEq>(s: Option<X>, p: ResourceOrVar<T, X>) -> PatternPredicate<T> { match p { ResourceOrVar::Resource(x) => PatternPredicate::Given(x), ResourceOrVar::Var(v) => if shares(v, s) { PatternPredicate::SameAsSubject } else { PatternPredicate::Any } } }
pub open spec fn of_op<T, X: PartialEq>(s: Option<X>, p: Option<X>, o: ResourceOrVar<T, X>) -> PatternObject<T> { match o { ResourceOrVar::Resource(x) => PatternObject::Given(x), ResourceOrVar::Var(v) => if shares(v, s) { PatternObject::SameAsSubject } else if shares(v, p) { PatternObject::SameAsPredicate } else { PatternObject::Any } } }
pub open spec fn sat_sp<T>(c: PatternSubject<T>, s: T) -> bool { match c { PatternSubject::Any => true, PatternSubject::Given(r) => s == r } }
pub open spec fn sat_pp<T>(c: PatternPredicate<T>, s: T, p: T) -> bool { match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => p == s, PatternPredicate::Given(r) => p == r } }
pub open spec fn sat_op<T>(c: PatternObject<T>, s: T, p: T, o: T) -> bool { match c { PatternObject::Any => true, PatternObject::SameAsSubject => o == s, PatternObject::SameAsPredicate => o == p, PatternObject::Given(r) => o == r } }
pub open spec fn sat<T>(c: CanonicalTriplePattern<T>, u: Triple<T>) -> bool { sat_sp(c.sp(), u.0) && sat_pp(c.pp(), u.0, u.1) && sat_op(c.op(), u.0, u.1, u.2) }
impl<T> PatternSubject<T> {
//@fn pattern/triple/canonical.rs | impl<T> PatternSubject<T> | id
//@ ret r
//@ spec ensures match *self { PatternSubject::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/triple/canonical.rs | impl<T> PatternSubject<T> | into_id
//@ ret r
//@ spec ensures match self { PatternSubject::Given(x) => r == Some(x), _ => r is None }
//@end
}
impl<T> PatternSubject<&T> {
//@fn pattern/triple/canonical.rs | impl<T> PatternSubject<&T> | cloned
//@ ret r
//@ spec ensures r == deref_sp(self)
//@end
}
impl<T> PatternPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> PatternPredicate<T> | id
//@ ret r
//@ spec ensures match *self { PatternPredicate::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/triple/canonical.rs | impl<T> PatternPredicate<T> | into_id
//@ ret r
//@ spec ensures match self { PatternPredicate::Given(x) => r == Some(x), _ => r is None }
//@end
}
impl<T> PatternPredicate<&T> {
//@fn pattern/triple/canonical.rs | impl<T> PatternPredicate<&T> | cloned
//@ ret r
//@ spec ensures r == deref_pp(self)
//@end
}
impl<T> PatternObject<T> {
//@fn pattern/triple/canonical.rs | impl<T> PatternObject<T> | id
//@ ret r
//@ spec ensures match *self { PatternObject::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/triple/canonical.rs | impl<T> PatternObject<T> | into_id
//@ ret r
//@ spec ensures match self { PatternObject::Given(x) => r == Some(x), _ => r is None }
//@end
}
impl<T> PatternObject<&T> {
//@fn pattern/triple/canonical.rs | impl<T> PatternObject<&T> | cloned
//@ ret r
//@ spec ensures r == deref_op(self)
//@end
}
impl<T: PartialEq> PatternObject<T> {
//@fn pattern/triple/canonical.rs | impl<T: PartialEq> PatternObject<T> | filter_triple
//@ ret r
//@ spec ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == match *self { PatternObject::Any => true, PatternObject::SameAsSubject => same($1.2, $1.0), PatternObject::SameAsPredicate => same($1.2, $1.1), PatternObject::Given(x) => same($1.2, x) }
//@end
}
impl<T> CanonicalTriplePattern<T> {
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | subject
//@ ret r
//@ spec ensures deref_sp(r) == self.sp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | into_subject
//@ ret r
//@ spec ensures r == self.sp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | predicate
//@ ret r
//@ spec ensures deref_pp(r) == self.pp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | with_any_graph
//@ ret r
//@ spec ensures triple_sp(self.sp(), r.sp()), triple_pp(self.pp(), r.pp()), triple_op(self.op(), r.op()), r.gp() is Any
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | from_triple
//@ ret r
//@ spec ensures r.sp() == PatternSubject::Given($0.0), r.pp() == PatternPredicate::Given($0.1), r.op() == PatternObject::Given($0.2)
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | from_option_triple
//@ ret r
//@ spec ensures r.sp() == opt_sp($0.0), r.pp() == opt_pp($0.1), r.op() == opt_op($0.2)
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.sp() == of_sp($0.0) && r.pp() == of_pp(var($0.0), $0.1) && r.op() == of_op(var($0.0), var($0.1), $0.2))
//@end
}
impl<T> AnySubject<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | predicate
//@ ret r
//@ spec ensures deref_pp(r) == self.pp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | with_any_graph
//@ ret r
//@ spec ensures triple_pp(self.pp(), r.pp()), triple_op(self.op(), r.op()), r.gp() is Any
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | from_option_triple
//@ ret r
//@ spec ensures r.pp() == opt_pp($0), r.op() == opt_op($1)
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.pp() == of_pp(Some($0), $1) && r.op() == of_op(Some($0), var($1), $2))
//@end
}
impl<T> GivenSubject<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | predicate
//@ ret r
//@ spec ensures deref_pp(r) == self.pp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | with_any_graph
//@ ret r
//@ spec ensures triple_pp(self.pp(), r.pp()), triple_op(self.op(), r.op()), r.gp() is Any
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | from_option_triple
//@ ret r
//@ spec ensures r.pp() == opt_pp($0), r.op() == opt_op($1)
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.pp() == of_pp(None, $0) && r.op() == of_op(None, var($0), $1))
//@end
}
impl<T> AnySubjectAnyPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | with_any_graph
//@ ret r
//@ spec ensures triple_op(self.op(), r.op()), r.gp() is Any
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0)
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.op() == of_op(Some($0), Some($1), $2))
//@end
}
impl<T> AnySubjectGivenPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | with_any_graph
//@ ret r
//@ spec ensures triple_op(self.op(), r.op()), r.gp() is Any
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0)
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.op() == of_op(Some($0), None, $1))
//@end
}
impl<T> GivenSubjectAnyPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | with_any_graph
//@ ret r
//@ spec ensures triple_op(self.op(), r.op()), r.gp() is Any
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | as_given
//@ ret r
//@ spec ensures match self.op() { PatternObject::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0)
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.op() == of_op(None, Some($0), $1))
//@end
}
impl<T> GivenSubjectGivenPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | with_any_graph
//@ ret r
//@ spec ensures triple_op(self.op(), r.op()), r.gp() is Any
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | as_given
//@ ret r
//@ spec ensures match self.op() { PatternObject::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0)
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | from_pattern
//@ ret r
//@ spec ensures match $0 { ResourceOrVar::Resource(x) => r.op() == PatternObject::Given(x), ResourceOrVar::Var(v) => r.op() is Any }
//@end
}
pub open spec fn set_sp<T>(a: CanonicalTriplePattern<T>, s: T, r: PatternSubject<T>, b: CanonicalTriplePattern<T>) -> bool { r == a.sp() && b.sp() == PatternSubject::Given(s) && b.pp() == (if a.pp() is SameAsSubject { PatternPredicate::Given(s) } else { a.pp() }) && b.op() == (if a.op() is SameAsSubject { PatternObject::Given(s) } else { a.op() }) }
pub open spec fn set_pp<T>(a: CanonicalTriplePattern<T>, p: T, r: PatternPredicate<T>, b: CanonicalTriplePattern<T>) -> bool { r == a.pp() && b.sp() == (if a.pp() is SameAsSubject { PatternSubject::Given(p) } else { a.sp() }) && b.pp() == PatternPredicate::Given(p) && b.op() == (if a.op() is SameAsPredicate || (a.pp() is SameAsSubject && a.op() is SameAsSubject) { PatternObject::Given(p) } else { a.op() }) }
pub open spec fn set_op<T>(a: CanonicalTriplePattern<T>, o: T, r: PatternObject<T>, b: CanonicalTriplePattern<T>) -> bool { r == a.op() && b.sp() == (if a.op() is SameAsSubject { PatternSubject::Given(o) } else { a.sp() }) && b.op() == PatternObject::Given(o) && b.pp() == (if a.op() is SameAsPredicate || (a.op() is SameAsSubject && a.pp() is SameAsSubject) { PatternPredicate::Given(o) } else { a.pp() }) }
pub open spec fn anysubject_set_pp<T>(a: AnySubject<T>, p: T, r: PatternPredicate<T>, b: AnySubject<T>) -> bool { r == a.pp() &&  b.pp() == PatternPredicate::Given(p) && b.op() == (if a.op() is SameAsPredicate || (a.pp() is SameAsSubject && a.op() is SameAsSubject) { PatternObject::Given(p) } else { a.op() }) }
pub open spec fn anysubject_set_op<T>(a: AnySubject<T>, o: T, r: PatternObject<T>, b: AnySubject<T>) -> bool { r == a.op() &&  b.op() == PatternObject::Given(o) && b.pp() == (if a.op() is SameAsPredicate || (a.op() is SameAsSubject && a.pp() is SameAsSubject) { PatternPredicate::Given(o) } else { a.pp() }) }
pub open spec fn givensubject_set_pp<T>(a: GivenSubject<T>, p: T, r: PatternPredicate<T>, b: GivenSubject<T>) -> bool { r == a.pp() &&  b.pp() == PatternPredicate::Given(p) && b.op() == (if a.op() is SameAsPredicate || (a.pp() is SameAsSubject && a.op() is SameAsSubject) { PatternObject::Given(p) } else { a.op() }) }
pub open spec fn givensubject_set_op<T>(a: GivenSubject<T>, o: T, r: PatternObject<T>, b: GivenSubject<T>) -> bool { r == a.op() &&  b.op() == PatternObject::Given(o) && b.pp() == (if a.op() is SameAsPredicate || (a.op() is SameAsSubject && a.pp() is SameAsSubject) { PatternPredicate::Given(o) } else { a.pp() }) }
impl<T> CanonicalTriplePattern<T> {
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | set_subject
//@ ret r
//@ closure 0 (CanonicalTriplePattern<T>) -> res__: (PatternSubject<T>, CanonicalTriplePattern<T>) ensures set_sp(c0, $1, res__.0, res__.1)
//@ spec ensures set_sp(*old(self), $1, r, *final(self))
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | with_subject
//@ ret r
//@ spec ensures exists|old: PatternSubject<T>| set_sp(self, $1, old, r)
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | set_predicate
//@ ret r
//@ closure 0 (CanonicalTriplePattern<T>) -> res__: (PatternPredicate<T>, CanonicalTriplePattern<T>) ensures set_pp(c0, $1, res__.0, res__.1)
//@ spec ensures set_pp(*old(self), $1, r, *final(self))
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | with_predicate
//@ ret r
//@ spec ensures exists|old: PatternPredicate<T>| set_pp(self, $1, old, r)
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | set_object
//@ ret r
//@ closure 0 (CanonicalTriplePattern<T>) -> res__: (PatternObject<T>, CanonicalTriplePattern<T>) ensures set_op(c0, $1, res__.0, res__.1)
//@ spec ensures set_op(*old(self), $1, r, *final(self))
//@end
//@fn pattern/triple/canonical.rs | impl<T> CanonicalTriplePattern<T> | with_object
//@ ret r
//@ spec ensures exists|old: PatternObject<T>| set_op(self, $1, old, r)
//@end
}
impl<T> AnySubject<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | set_predicate
//@ ret r
//@ closure 0 (AnySubject<T>) -> res__: (PatternPredicate<T>, AnySubject<T>) ensures anysubject_set_pp(c0, $1, res__.0, res__.1)
//@ spec ensures anysubject_set_pp(*old(self), $1, r, *final(self))
//@end
//@fn pattern/triple/canonical.rs | impl<T> AnySubject<T> | set_object
//@ ret r
//@ closure 0 (AnySubject<T>) -> res__: (PatternObject<T>, AnySubject<T>) ensures anysubject_set_op(c0, $1, res__.0, res__.1)
//@ spec ensures anysubject_set_op(*old(self), $1, r, *final(self))
//@end
}
impl<T> GivenSubject<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | set_predicate
//@ ret r
//@ closure 0 (GivenSubject<T>) -> res__: (PatternPredicate<T>, GivenSubject<T>) ensures givensubject_set_pp(c0, $1, res__.0, res__.1)
//@ spec ensures givensubject_set_pp(*old(self), $1, r, *final(self))
//@end
//@fn pattern/triple/canonical.rs | impl<T> GivenSubject<T> | set_object
//@ ret r
//@ closure 0 (GivenSubject<T>) -> res__: (PatternObject<T>, GivenSubject<T>) ensures givensubject_set_op(c0, $1, res__.0, res__.1)
//@ spec ensures givensubject_set_op(*old(self), $1, r, *final(self))
//@end
}
impl<T> AnySubjectAnyPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | set_object
//@ ret r
//@ spec ensures r == old(self).op(), final(self).op() == PatternObject::Given($1)
//@end
}
impl<T> AnySubjectGivenPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | set_object
//@ ret r
//@ spec ensures r == old(self).op(), final(self).op() == PatternObject::Given($1)
//@end
}
impl<T> GivenSubjectAnyPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | set_object
//@ ret r
//@ spec ensures r == old(self).op(), final(self).op() == PatternObject::Given($1)
//@end
}
impl<T> GivenSubjectGivenPredicate<T> {
//@fn pattern/triple/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | set_object
//@ ret r
//@ spec ensures r == old(self).op(), final(self).op() == PatternObject::Given($1)
//@end
}
pub open spec fn opt_sp<T>(x: Option<T>) -> PatternSubject<T> { match x { Some(x) => PatternSubject::Given(x), None => PatternSubject::Any } }
pub open spec fn opt_pp<T>(x: Option<T>) -> PatternPredicate<T> { match x { Some(x) => PatternPredicate::Given(x), None => PatternPredicate::Any } }
pub open spec fn opt_op<T>(x: Option<T>) -> PatternObject<T> { match x { Some(x) => PatternObject::Given(x), None => PatternObject::Any } }
