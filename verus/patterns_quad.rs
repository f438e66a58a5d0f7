// (written by tools/mkpatterns.py)
//@item pattern/quad/canonical.rs | PatternSubject
//@item pattern/quad/canonical.rs | PatternPredicate
//@item pattern/quad/canonical.rs | PatternObject
//@item pattern/quad/canonical.rs | PatternGraph
//@item pattern/quad/canonical.rs | CanonicalQuadPattern
//@item pattern/quad/canonical.rs | AnySubject
//@item pattern/quad/canonical.rs | GivenSubject
//@item pattern/quad/canonical.rs | AnySubjectAnyPredicate
//@item pattern/quad/canonical.rs | AnySubjectGivenPredicate
//@item pattern/quad/canonical.rs | GivenSubjectAnyPredicate
//@item pattern/quad/canonical.rs | GivenSubjectGivenPredicate
//@item pattern/quad/canonical.rs | AnySubjectAnyPredicateAnyObject
//@item pattern/quad/canonical.rs | GivenSubjectAnyPredicateAnyObject
//@item pattern/quad/canonical.rs | AnySubjectGivenPredicateAnyObject
//@item pattern/quad/canonical.rs | AnySubjectAnyPredicateGivenObject
//@item pattern/quad/canonical.rs | AnySubjectGivenPredicateGivenObject
//@item pattern/quad/canonical.rs | GivenSubjectAnyPredicateGivenObject
//@item pattern/quad/canonical.rs | GivenSubjectGivenPredicateAnyObject
//@item pattern/quad/canonical.rs | GivenSubjectGivenPredicateGivenObject
impl<T> CanonicalQuadPattern<T> {
    pub open spec fn sp(self) -> PatternSubject<T> { match self { CanonicalQuadPattern::AnySubject(q) => PatternSubject::Any, CanonicalQuadPattern::GivenSubject(r, q) => PatternSubject::Given(r) } }
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { CanonicalQuadPattern::AnySubject(q) => q.pp(), CanonicalQuadPattern::GivenSubject(r, q) => q.pp() } }
    pub open spec fn op(self) -> PatternObject<T> { match self { CanonicalQuadPattern::AnySubject(q) => q.op(), CanonicalQuadPattern::GivenSubject(r, q) => q.op() } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { CanonicalQuadPattern::AnySubject(q) => q.gp(), CanonicalQuadPattern::GivenSubject(r, q) => q.gp() } }
}
impl<T> AnySubject<T> {
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { AnySubject::AnyPredicate(q) => PatternPredicate::Any, AnySubject::SameAsSubject(q) => PatternPredicate::SameAsSubject, AnySubject::GivenPredicate(r, q) => PatternPredicate::Given(r) } }
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubject::AnyPredicate(q) => q.op(), AnySubject::SameAsSubject(q) => q.op(), AnySubject::GivenPredicate(r, q) => q.op() } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubject::AnyPredicate(q) => q.gp(), AnySubject::SameAsSubject(q) => q.gp(), AnySubject::GivenPredicate(r, q) => q.gp() } }
}
impl<T> GivenSubject<T> {
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { GivenSubject::AnyPredicate(q) => PatternPredicate::Any, GivenSubject::GivenPredicate(r, q) => PatternPredicate::Given(r) } }
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubject::AnyPredicate(q) => q.op(), GivenSubject::GivenPredicate(r, q) => q.op() } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubject::AnyPredicate(q) => q.gp(), GivenSubject::GivenPredicate(r, q) => q.gp() } }
}
impl<T> AnySubjectAnyPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubjectAnyPredicate::AnyObject(q) => PatternObject::Any, AnySubjectAnyPredicate::SameAsSubject(q) => PatternObject::SameAsSubject, AnySubjectAnyPredicate::SameAsPredicate(q) => PatternObject::SameAsPredicate, AnySubjectAnyPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectAnyPredicate::AnyObject(q) => q.gp(), AnySubjectAnyPredicate::SameAsSubject(q) => q.gp(), AnySubjectAnyPredicate::SameAsPredicate(q) => q.gp(), AnySubjectAnyPredicate::GivenObject(r, q) => q.gp() } }
}
impl<T> AnySubjectGivenPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubjectGivenPredicate::AnyObject(q) => PatternObject::Any, AnySubjectGivenPredicate::SameAsSubject(q) => PatternObject::SameAsSubject, AnySubjectGivenPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectGivenPredicate::AnyObject(q) => q.gp(), AnySubjectGivenPredicate::SameAsSubject(q) => q.gp(), AnySubjectGivenPredicate::GivenObject(r, q) => q.gp() } }
}
impl<T> GivenSubjectAnyPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubjectAnyPredicate::AnyObject(q) => PatternObject::Any, GivenSubjectAnyPredicate::SameAsPredicate(q) => PatternObject::SameAsPredicate, GivenSubjectAnyPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectAnyPredicate::AnyObject(q) => q.gp(), GivenSubjectAnyPredicate::SameAsPredicate(q) => q.gp(), GivenSubjectAnyPredicate::GivenObject(r, q) => q.gp() } }
}
impl<T> GivenSubjectGivenPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubjectGivenPredicate::AnyObject(q) => PatternObject::Any, GivenSubjectGivenPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectGivenPredicate::AnyObject(q) => q.gp(), GivenSubjectGivenPredicate::GivenObject(r, q) => q.gp() } }
}
impl<T> AnySubjectAnyPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectAnyPredicateAnyObject::AnyGraph => PatternGraph::Any, AnySubjectAnyPredicateAnyObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectAnyPredicateAnyObject::SameAsPredicate => PatternGraph::SameAsPredicate, AnySubjectAnyPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, AnySubjectAnyPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
impl<T> GivenSubjectAnyPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectAnyPredicateAnyObject::AnyGraph => PatternGraph::Any, GivenSubjectAnyPredicateAnyObject::SameAsPredicate => PatternGraph::SameAsPredicate, GivenSubjectAnyPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, GivenSubjectAnyPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
impl<T> AnySubjectGivenPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectGivenPredicateAnyObject::AnyGraph => PatternGraph::Any, AnySubjectGivenPredicateAnyObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectGivenPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, AnySubjectGivenPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
impl<T> AnySubjectAnyPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectAnyPredicateGivenObject::AnyGraph => PatternGraph::Any, AnySubjectAnyPredicateGivenObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectAnyPredicateGivenObject::SameAsPredicate => PatternGraph::SameAsPredicate, AnySubjectAnyPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
impl<T> AnySubjectGivenPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectGivenPredicateGivenObject::AnyGraph => PatternGraph::Any, AnySubjectGivenPredicateGivenObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectGivenPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
impl<T> GivenSubjectAnyPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectAnyPredicateGivenObject::AnyGraph => PatternGraph::Any, GivenSubjectAnyPredicateGivenObject::SameAsPredicate => PatternGraph::SameAsPredicate, GivenSubjectAnyPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
impl<T> GivenSubjectGivenPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectGivenPredicateAnyObject::AnyGraph => PatternGraph::Any, GivenSubjectGivenPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, GivenSubjectGivenPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
impl<T> GivenSubjectGivenPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectGivenPredicateGivenObject::AnyGraph => PatternGraph::Any, GivenSubjectGivenPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
}
pub open spec fn deref_sp<T>(c: PatternSubject<&T>) -> PatternSubject<T> { match c { PatternSubject::Any => PatternSubject::Any, PatternSubject::Given(x) => PatternSubject::Given(*x) } }
pub open spec fn rel_sp<T, U>(a: PatternSubject<T>, b: PatternSubject<U>, f: spec_fn(T, U) -> bool) -> bool { match (a, b) { (PatternSubject::Any, PatternSubject::Any) => true, (PatternSubject::Given(x), PatternSubject::Given(y)) => f(x, y), _ => false } }
pub open spec fn rel2_sp<T, U, V>(a: PatternSubject<T>, b: PatternSubject<U>, c: PatternSubject<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { (PatternSubject::Any, PatternSubject::Any, PatternSubject::Any) => true, (PatternSubject::Given(x), PatternSubject::Given(y), PatternSubject::Given(z)) => f(x, y, z), _ => false } }
pub open spec fn deref_pp<T>(c: PatternPredicate<&T>) -> PatternPredicate<T> { match c { PatternPredicate::Any => PatternPredicate::Any, PatternPredicate::SameAsSubject => PatternPredicate::SameAsSubject, PatternPredicate::Given(x) => PatternPredicate::Given(*x) } }
pub open spec fn rel_pp<T, U>(a: PatternPredicate<T>, b: PatternPredicate<U>, f: spec_fn(T, U) -> bool) -> bool { match (a, b) { (PatternPredicate::Any, PatternPredicate::Any) => true, (PatternPredicate::SameAsSubject, PatternPredicate::SameAsSubject) => true, (PatternPredicate::Given(x), PatternPredicate::Given(y)) => f(x, y), _ => false } }
pub open spec fn rel2_pp<T, U, V>(a: PatternPredicate<T>, b: PatternPredicate<U>, c: PatternPredicate<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { (PatternPredicate::Any, PatternPredicate::Any, PatternPredicate::Any) => true, (PatternPredicate::SameAsSubject, PatternPredicate::SameAsSubject, PatternPredicate::SameAsSubject) => true, (PatternPredicate::Given(x), PatternPredicate::Given(y), PatternPredicate::Given(z)) => f(x, y, z), _ => false } }
pub open spec fn deref_op<T>(c: PatternObject<&T>) -> PatternObject<T> { match c { PatternObject::Any => PatternObject::Any, PatternObject::SameAsSubject => PatternObject::SameAsSubject, PatternObject::SameAsPredicate => PatternObject::SameAsPredicate, PatternObject::Given(x) => PatternObject::Given(*x) } }
pub open spec fn rel_op<T, U>(a: PatternObject<T>, b: PatternObject<U>, f: spec_fn(T, U) -> bool) -> bool { match (a, b) { (PatternObject::Any, PatternObject::Any) => true, (PatternObject::SameAsSubject, PatternObject::SameAsSubject) => true, (PatternObject::SameAsPredicate, PatternObject::SameAsPredicate) => true, (PatternObject::Given(x), PatternObject::Given(y)) => f(x, y), _ => false } }
pub open spec fn rel2_op<T, U, V>(a: PatternObject<T>, b: PatternObject<U>, c: PatternObject<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { (PatternObject::Any, PatternObject::Any, PatternObject::Any) => true, (PatternObject::SameAsSubject, PatternObject::SameAsSubject, PatternObject::SameAsSubject) => true, (PatternObject::SameAsPredicate, PatternObject::SameAsPredicate, PatternObject::SameAsPredicate) => true, (PatternObject::Given(x), PatternObject::Given(y), PatternObject::Given(z)) => f(x, y, z), _ => false } }
pub open spec fn deref_gp<T>(c: PatternGraph<&T>) -> PatternGraph<T> { match c { PatternGraph::Any => PatternGraph::Any, PatternGraph::SameAsSubject => PatternGraph::SameAsSubject, PatternGraph::SameAsPredicate => PatternGraph::SameAsPredicate, PatternGraph::SameAsObject => PatternGraph::SameAsObject, PatternGraph::Given(x) => PatternGraph::Given(deref_opt(x)) } }
pub open spec fn rel_gp<T, U>(a: PatternGraph<T>, b: PatternGraph<U>, f: spec_fn(T, U) -> bool) -> bool { match (a, b) { (PatternGraph::Any, PatternGraph::Any) => true, (PatternGraph::SameAsSubject, PatternGraph::SameAsSubject) => true, (PatternGraph::SameAsPredicate, PatternGraph::SameAsPredicate) => true, (PatternGraph::SameAsObject, PatternGraph::SameAsObject) => true, (PatternGraph::Given(x), PatternGraph::Given(y)) => match (x, y) { (None, None) => true, (Some(x), Some(y)) => f(x, y), _ => false }, _ => false } }
pub open spec fn rel2_gp<T, U, V>(a: PatternGraph<T>, b: PatternGraph<U>, c: PatternGraph<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { (PatternGraph::Any, PatternGraph::Any, PatternGraph::Any) => true, (PatternGraph::SameAsSubject, PatternGraph::SameAsSubject, PatternGraph::SameAsSubject) => true, (PatternGraph::SameAsPredicate, PatternGraph::SameAsPredicate, PatternGraph::SameAsPredicate) => true, (PatternGraph::SameAsObject, PatternGraph::SameAsObject, PatternGraph::SameAsObject) => true, (PatternGraph::Given(x), PatternGraph::Given(y), PatternGraph::Given(z)) => match (x, y, z) { (None, None, None) => true, (Some(x), Some(y), Some(z)) => f(x, y, z), _ => false }, _ => false } }
pub open spec fn of_sp<T, X: PartialEq>(s: ResourceOrVar<T, X>) -> PatternSubject<T> { match s { ResourceOrVar::Resource(x) => PatternSubject::Given(x), ResourceOrVar::Var(v) => PatternSubject::Any } }
pub open spec fn of_pp<T, X: PartialEq>(s: Option<X>, p: ResourceOrVar<T, X>) -> PatternPredicate<T> { match p { ResourceOrVar::Resource(x) => PatternPredicate::Given(x), ResourceOrVar::Var(v) => if shares(v, s) { PatternPredicate::SameAsSubject } else { PatternPredicate::Any } } }
pub open spec fn of_op<T, X: PartialEq>(s: Option<X>, p: Option<X>, o: ResourceOrVar<T, X>) -> PatternObject<T> { match o { ResourceOrVar::Resource(x) => PatternObject::Given(x), ResourceOrVar::Var(v) => if shares(v, s) { PatternObject::SameAsSubject } else if shares(v, p) { PatternObject::SameAsPredicate } else { PatternObject::Any } } }
pub open spec fn of_gp<T, X: PartialEq>(s: Option<X>, p: Option<X>, o: Option<X>, g: Option<ResourceOrVar<T, X>>) -> PatternGraph<T> { match g { None => PatternGraph::Given(None), Some(ResourceOrVar::Resource(x)) => PatternGraph::Given(Some(x)), Some(ResourceOrVar::Var(v)) => if shares(v, s) { PatternGraph::SameAsSubject } else if shares(v, p) { PatternGraph::SameAsPredicate } else if shares(v, o) { PatternGraph::SameAsObject } else { PatternGraph::Any } } }
pub open spec fn sat_sp<T>(c: PatternSubject<T>, s: T) -> bool { match c { PatternSubject::Any => true, PatternSubject::Given(r) => s == r } }
pub open spec fn sat_pp<T>(c: PatternPredicate<T>, s: T, p: T) -> bool { match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => p == s, PatternPredicate::Given(r) => p == r } }
pub open spec fn sat_op<T>(c: PatternObject<T>, s: T, p: T, o: T) -> bool { match c { PatternObject::Any => true, PatternObject::SameAsSubject => o == s, PatternObject::SameAsPredicate => o == p, PatternObject::Given(r) => o == r } }
pub open spec fn sat_gp<T>(c: PatternGraph<T>, s: T, p: T, o: T, g: Option<T>) -> bool { match c { PatternGraph::Any => true, PatternGraph::SameAsSubject => g == Some(s), PatternGraph::SameAsPredicate => g == Some(p), PatternGraph::SameAsObject => g == Some(o), PatternGraph::Given(r) => g == r } }
pub open spec fn sat<T>(c: CanonicalQuadPattern<T>, u: Quad<T>) -> bool { sat_sp(c.sp(), u.0) && sat_pp(c.pp(), u.0, u.1) && sat_op(c.op(), u.0, u.1, u.2) && sat_gp(c.gp(), u.0, u.1, u.2, u.3) }
impl<T> PatternSubject<T> {
//@fn pattern/quad/canonical.rs | impl<T> PatternSubject<T> | id
//@ ret r
//@ spec ensures match *self { PatternSubject::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/quad/canonical.rs | impl<T> PatternSubject<T> | into_id
//@ ret r
//@ spec ensures match self { PatternSubject::Given(x) => r == Some(x), _ => r is None }
//@end
}
impl<T> PatternSubject<&T> {
//@fn pattern/quad/canonical.rs | impl<T> PatternSubject<&T> | cloned
//@ ret r
//@ spec ensures r == deref_sp(self)
//@end
}
impl<T> PatternPredicate<T> {
//@fn pattern/quad/canonical.rs | impl<T> PatternPredicate<T> | id
//@ ret r
//@ spec ensures match *self { PatternPredicate::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/quad/canonical.rs | impl<T> PatternPredicate<T> | into_id
//@ ret r
//@ spec ensures match self { PatternPredicate::Given(x) => r == Some(x), _ => r is None }
//@end
}
impl<T> PatternPredicate<&T> {
//@fn pattern/quad/canonical.rs | impl<T> PatternPredicate<&T> | cloned
//@ ret r
//@ spec ensures r == deref_pp(self)
//@end
}
impl<T> PatternObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> PatternObject<T> | id
//@ ret r
//@ spec ensures match *self { PatternObject::Given(x) => r is Some && *r->0 == x, _ => r is None }
//@end
//@fn pattern/quad/canonical.rs | impl<T> PatternObject<T> | into_id
//@ ret r
//@ spec ensures match self { PatternObject::Given(x) => r == Some(x), _ => r is None }
//@end
}
impl<T> PatternObject<&T> {
//@fn pattern/quad/canonical.rs | impl<T> PatternObject<&T> | cloned
//@ ret r
//@ spec ensures r == deref_op(self)
//@end
}
impl<T: PartialEq> PatternObject<T> {
//@fn pattern/quad/canonical.rs | impl<T: PartialEq> PatternObject<T> | filter_triple
//@ ret r
//@ spec ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == match *self { PatternObject::Any => true, PatternObject::SameAsSubject => same($1.2, $1.0), PatternObject::SameAsPredicate => same($1.2, $1.1), PatternObject::Given(x) => same($1.2, x) }
//@end
}
impl<T> CanonicalQuadPattern<T> {
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | subject
//@ ret r
//@ spec ensures deref_sp(r) == self.sp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_subject
//@ ret r
//@ spec ensures r == self.sp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | predicate
//@ ret r
//@ spec ensures deref_pp(r) == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | as_ref
//@ ret r
//@ spec ensures deref_sp(r.sp()) == self.sp(), deref_pp(r.pp()) == self.pp(), deref_op(r.op()) == self.op(), deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.sp(), r.1 == self.pp(), r.2 == self.op(), r.3 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_triple
//@ ret r
//@ spec ensures triple_sp(r.0.sp(), self.sp()), triple_pp(r.0.pp(), self.pp()), triple_op(r.0.op(), self.op()), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_sp(self.sp(), r.sp(), |x: T, y: U| $1.ensures((x,), y)), rel_pp(self.pp(), r.pp(), |x: T, y: U| $1.ensures((x,), y)), rel_op(self.op(), r.op(), |x: T, y: U| $1.ensures((x,), y)), rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_sp(self.sp(), r.0.sp(), r.1.sp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_pp(self.pp(), r.0.pp(), r.1.pp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_op(self.op(), r.0.op(), r.1.op(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | from_triple
//@ ret r
//@ spec ensures r.sp() == PatternSubject::Given($0.0), r.pp() == PatternPredicate::Given($0.1), r.op() == PatternObject::Given($0.2), r.gp() is Any
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | from_option_triple
//@ ret r
//@ spec ensures r.sp() == opt_sp($0.0), r.pp() == opt_pp($0.1), r.op() == opt_op($0.2), r.gp() is Any
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | from_quad
//@ ret r
//@ spec ensures r.sp() == PatternSubject::Given($0.0), r.pp() == PatternPredicate::Given($0.1), r.op() == PatternObject::Given($0.2), r.gp() == PatternGraph::Given($0.3)
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | from_option_quad
//@ ret r
//@ spec ensures r.sp() == opt_sp($0.0), r.pp() == opt_pp($0.1), r.op() == opt_op($0.2), r.gp() == opt_gp($0.3)
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | from_triple_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.sp() == of_sp($0.0) && r.pp() == of_pp(var($0.0), $0.1) && r.op() == of_op(var($0.0), var($0.1), $0.2) && r.gp() == PatternGraph::<T>::Given(None))
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.sp() == of_sp($0.0) && r.pp() == of_pp(var($0.0), $0.1) && r.op() == of_op(var($0.0), var($0.1), $0.2) && r.gp() == of_gp(var($0.0), var($0.1), var($0.2), $0.3))
//@end
}
impl<T> AnySubject<T> {
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | predicate
//@ ret r
//@ spec ensures deref_pp(r) == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | as_ref
//@ ret r
//@ spec ensures deref_pp(r.pp()) == self.pp(), deref_op(r.op()) == self.op(), deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.pp(), r.1 == self.op(), r.2 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_triple
//@ ret r
//@ spec ensures triple_pp(r.0.pp(), self.pp()), triple_op(r.0.op(), self.op()), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_pp(self.pp(), r.pp(), |x: T, y: U| $1.ensures((x,), y)), rel_op(self.op(), r.op(), |x: T, y: U| $1.ensures((x,), y)), rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_pp(self.pp(), r.0.pp(), r.1.pp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_op(self.op(), r.0.op(), r.1.op(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | from_option_quad
//@ ret r
//@ spec ensures r.pp() == opt_pp($0), r.op() == opt_op($1), r.gp() == opt_gp($2)
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.pp() == of_pp(Some($0), $1) && r.op() == of_op(Some($0), var($1), $2) && r.gp() == of_gp(Some($0), var($1), var($2), $3))
//@end
}
impl<T> GivenSubject<T> {
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | predicate
//@ ret r
//@ spec ensures deref_pp(r) == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | as_ref
//@ ret r
//@ spec ensures deref_pp(r.pp()) == self.pp(), deref_op(r.op()) == self.op(), deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.pp(), r.1 == self.op(), r.2 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_triple
//@ ret r
//@ spec ensures triple_pp(r.0.pp(), self.pp()), triple_op(r.0.op(), self.op()), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_pp(self.pp(), r.pp(), |x: T, y: U| $1.ensures((x,), y)), rel_op(self.op(), r.op(), |x: T, y: U| $1.ensures((x,), y)), rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_pp(self.pp(), r.0.pp(), r.1.pp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_op(self.op(), r.0.op(), r.1.op(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | from_option_quad
//@ ret r
//@ spec ensures r.pp() == opt_pp($0), r.op() == opt_op($1), r.gp() == opt_gp($2)
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.pp() == of_pp(None, $0) && r.op() == of_op(None, var($0), $1) && r.gp() == of_gp(None, var($0), var($1), $2))
//@end
}
impl<T> AnySubjectAnyPredicate<T> {
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | as_ref
//@ ret r
//@ spec ensures deref_op(r.op()) == self.op(), deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_triple
//@ ret r
//@ spec ensures triple_op(r.0.op(), self.op()), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_op(self.op(), r.op(), |x: T, y: U| $1.ensures((x,), y)), rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_op(self.op(), r.0.op(), r.1.op(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0), r.gp() == opt_gp($1)
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.op() == of_op(Some($0), Some($1), $2) && r.gp() == of_gp(Some($0), Some($1), var($2), $3))
//@end
}
impl<T> AnySubjectGivenPredicate<T> {
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | as_ref
//@ ret r
//@ spec ensures deref_op(r.op()) == self.op(), deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_triple
//@ ret r
//@ spec ensures triple_op(r.0.op(), self.op()), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_op(self.op(), r.op(), |x: T, y: U| $1.ensures((x,), y)), rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_op(self.op(), r.0.op(), r.1.op(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0), r.gp() == opt_gp($1)
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.op() == of_op(Some($0), None, $1) && r.gp() == of_gp(Some($0), None, var($1), $2))
//@end
}
impl<T> GivenSubjectAnyPredicate<T> {
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | as_ref
//@ ret r
//@ spec ensures deref_op(r.op()) == self.op(), deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_triple
//@ ret r
//@ spec ensures triple_op(r.0.op(), self.op()), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_op(self.op(), r.op(), |x: T, y: U| $1.ensures((x,), y)), rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_op(self.op(), r.0.op(), r.1.op(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0), r.gp() == opt_gp($1)
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.op() == of_op(None, Some($0), $1) && r.gp() == of_gp(None, Some($0), var($1), $2))
//@end
}
impl<T> GivenSubjectGivenPredicate<T> {
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | object
//@ ret r
//@ spec ensures deref_op(r) == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | as_ref
//@ ret r
//@ spec ensures deref_op(r.op()) == self.op(), deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_triple
//@ ret r
//@ spec ensures triple_op(r.0.op(), self.op()), r.1 == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_op(self.op(), r.op(), |x: T, y: U| $1.ensures((x,), y)), rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_op(self.op(), r.0.op(), r.1.op(), |x: T, y: U, z: V| $1.ensures((x,), (y, z))), rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | from_option
//@ ret r
//@ spec ensures r.op() == opt_op($0), r.gp() == opt_gp($1)
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.op() == of_op(None::<X>, None, $0) && r.gp() == of_gp(None, None, var($0), $1))
//@end
}
impl<T> AnySubjectAnyPredicateAnyObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.gp() == of_gp(Some($0), Some($1), Some($2), $3))
//@end
}
impl<T> GivenSubjectAnyPredicateAnyObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.gp() == of_gp(None, Some($0), Some($1), $2))
//@end
}
impl<T> AnySubjectGivenPredicateAnyObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.gp() == of_gp(Some($0), None, Some($1), $2))
//@end
}
impl<T> AnySubjectAnyPredicateGivenObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.gp() == of_gp(Some($0), Some($1), None, $2))
//@end
}
impl<T> AnySubjectGivenPredicateGivenObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.gp() == of_gp(Some($0), None, None, $1))
//@end
}
impl<T> GivenSubjectAnyPredicateGivenObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.gp() == of_gp(None, Some($0), None, $1))
//@end
}
impl<T> GivenSubjectGivenPredicateAnyObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | from_pattern
//@ ret r
//@ spec ensures variables::<X>() ==> (r.gp() == of_gp(None, None, Some($0), $1))
//@end
}
impl<T> GivenSubjectGivenPredicateGivenObject<T> {
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | graph
//@ ret r
//@ spec ensures deref_gp(r) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | as_ref
//@ ret r
//@ spec ensures deref_gp(r.gp()) == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel_gp(self.gp(), r.gp(), |x: T, y: U| $1.ensures((x,), y))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | map2
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures rel2_gp(self.gp(), r.0.gp(), r.1.gp(), |x: T, y: U, z: V| $1.ensures((x,), (y, z)))
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | from_option
//@ ret r
//@ spec ensures r.gp() == opt_gp($0)
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | from_pattern
//@ ret r
//@ spec ensures match $0 { None => r.gp() == PatternGraph::<T>::Given(None), Some(ResourceOrVar::Resource(x)) => r.gp() == PatternGraph::Given(Some(x)), Some(ResourceOrVar::Var(v)) => r.gp() is Any }
//@end
}
pub open spec fn opt_sp<T>(x: Option<T>) -> PatternSubject<T> { match x { Some(x) => PatternSubject::Given(x), None => PatternSubject::Any } }
pub open spec fn opt_pp<T>(x: Option<T>) -> PatternPredicate<T> { match x { Some(x) => PatternPredicate::Given(x), None => PatternPredicate::Any } }
pub open spec fn opt_op<T>(x: Option<T>) -> PatternObject<T> { match x { Some(x) => PatternObject::Given(x), None => PatternObject::Any } }
pub open spec fn opt_gp<T>(x: Option<Option<T>>) -> PatternGraph<T> { match x { Some(x) => PatternGraph::Given(x), None => PatternGraph::Any } }
