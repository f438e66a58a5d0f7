// ---- canonical quad patterns: the enums of pattern/quad/canonical.rs and the components each stands for
// (written by tools/mkpat.py)
//@item pattern/quad/canonical.rs | PatternSubject
//@item pattern/quad/canonical.rs | PatternPredicate
//@item pattern/quad/canonical.rs | PatternObject
//@item pattern/quad/canonical.rs | PatternGraph
//@item pattern/quad/canonical.rs | CanonicalQuadPattern | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | AnySubject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | GivenSubject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | AnySubjectAnyPredicate | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | AnySubjectGivenPredicate | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | GivenSubjectAnyPredicate | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | GivenSubjectGivenPredicate | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | AnySubjectAnyPredicateAnyObject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | GivenSubjectAnyPredicateAnyObject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | AnySubjectGivenPredicateAnyObject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | AnySubjectAnyPredicateGivenObject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | AnySubjectGivenPredicateGivenObject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | GivenSubjectAnyPredicateGivenObject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | GivenSubjectGivenPredicateAnyObject | #[derive(Clone, Copy)]
//@item pattern/quad/canonical.rs | GivenSubjectGivenPredicateGivenObject | #[derive(Clone, Copy)]
impl<T> AnySubjectAnyPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectAnyPredicateAnyObject::AnyGraph => PatternGraph::Any, AnySubjectAnyPredicateAnyObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectAnyPredicateAnyObject::SameAsPredicate => PatternGraph::SameAsPredicate, AnySubjectAnyPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, AnySubjectAnyPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> GivenSubjectAnyPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectAnyPredicateAnyObject::AnyGraph => PatternGraph::Any, GivenSubjectAnyPredicateAnyObject::SameAsPredicate => PatternGraph::SameAsPredicate, GivenSubjectAnyPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, GivenSubjectAnyPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> AnySubjectGivenPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectGivenPredicateAnyObject::AnyGraph => PatternGraph::Any, AnySubjectGivenPredicateAnyObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectGivenPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, AnySubjectGivenPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> AnySubjectAnyPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectAnyPredicateGivenObject::AnyGraph => PatternGraph::Any, AnySubjectAnyPredicateGivenObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectAnyPredicateGivenObject::SameAsPredicate => PatternGraph::SameAsPredicate, AnySubjectAnyPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> AnySubjectGivenPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectGivenPredicateGivenObject::AnyGraph => PatternGraph::Any, AnySubjectGivenPredicateGivenObject::SameAsSubject => PatternGraph::SameAsSubject, AnySubjectGivenPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> GivenSubjectAnyPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectAnyPredicateGivenObject::AnyGraph => PatternGraph::Any, GivenSubjectAnyPredicateGivenObject::SameAsPredicate => PatternGraph::SameAsPredicate, GivenSubjectAnyPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> GivenSubjectGivenPredicateAnyObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectGivenPredicateAnyObject::AnyGraph => PatternGraph::Any, GivenSubjectGivenPredicateAnyObject::SameAsObject => PatternGraph::SameAsObject, GivenSubjectGivenPredicateAnyObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateAnyObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> GivenSubjectGivenPredicateGivenObject<T> {
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectGivenPredicateGivenObject::AnyGraph => PatternGraph::Any, GivenSubjectGivenPredicateGivenObject::GivenGraph(r) => PatternGraph::Given(r) } }
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicateGivenObject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
}
impl<T> AnySubjectAnyPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubjectAnyPredicate::AnyObject(q) => PatternObject::Any, AnySubjectAnyPredicate::SameAsSubject(q) => PatternObject::SameAsSubject, AnySubjectAnyPredicate::SameAsPredicate(q) => PatternObject::SameAsPredicate, AnySubjectAnyPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectAnyPredicate::AnyObject(q) => q.gp(), AnySubjectAnyPredicate::SameAsSubject(q) => q.gp(), AnySubjectAnyPredicate::SameAsPredicate(q) => q.gp(), AnySubjectAnyPredicate::GivenObject(r, q) => q.gp() } }
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectAnyPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
}
impl<T> AnySubjectGivenPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubjectGivenPredicate::AnyObject(q) => PatternObject::Any, AnySubjectGivenPredicate::SameAsSubject(q) => PatternObject::SameAsSubject, AnySubjectGivenPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubjectGivenPredicate::AnyObject(q) => q.gp(), AnySubjectGivenPredicate::SameAsSubject(q) => q.gp(), AnySubjectGivenPredicate::GivenObject(r, q) => q.gp() } }
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubjectGivenPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
}
impl<T> GivenSubjectAnyPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubjectAnyPredicate::AnyObject(q) => PatternObject::Any, GivenSubjectAnyPredicate::SameAsPredicate(q) => PatternObject::SameAsPredicate, GivenSubjectAnyPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectAnyPredicate::AnyObject(q) => q.gp(), GivenSubjectAnyPredicate::SameAsPredicate(q) => q.gp(), GivenSubjectAnyPredicate::GivenObject(r, q) => q.gp() } }
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectAnyPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
}
impl<T> GivenSubjectGivenPredicate<T> {
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubjectGivenPredicate::AnyObject(q) => PatternObject::Any, GivenSubjectGivenPredicate::GivenObject(r, q) => PatternObject::Given(r) } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubjectGivenPredicate::AnyObject(q) => q.gp(), GivenSubjectGivenPredicate::GivenObject(r, q) => q.gp() } }
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubjectGivenPredicate<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.op(), r.1 == self.gp()
//@end
}
impl<T> AnySubject<T> {
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { AnySubject::AnyPredicate(q) => PatternPredicate::Any, AnySubject::SameAsSubject(q) => PatternPredicate::SameAsSubject, AnySubject::GivenPredicate(r, q) => PatternPredicate::Given(r) } }
    pub open spec fn op(self) -> PatternObject<T> { match self { AnySubject::AnyPredicate(q) => q.op(), AnySubject::SameAsSubject(q) => q.op(), AnySubject::GivenPredicate(r, q) => q.op() } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { AnySubject::AnyPredicate(q) => q.gp(), AnySubject::SameAsSubject(q) => q.gp(), AnySubject::GivenPredicate(r, q) => q.gp() } }
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> AnySubject<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.pp(), r.1 == self.op(), r.2 == self.gp()
//@end
}
impl<T> GivenSubject<T> {
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { GivenSubject::AnyPredicate(q) => PatternPredicate::Any, GivenSubject::GivenPredicate(r, q) => PatternPredicate::Given(r) } }
    pub open spec fn op(self) -> PatternObject<T> { match self { GivenSubject::AnyPredicate(q) => q.op(), GivenSubject::GivenPredicate(r, q) => q.op() } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { GivenSubject::AnyPredicate(q) => q.gp(), GivenSubject::GivenPredicate(r, q) => q.gp() } }
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> GivenSubject<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.pp(), r.1 == self.op(), r.2 == self.gp()
//@end
}
impl<T> CanonicalQuadPattern<T> {
    pub open spec fn sp(self) -> PatternSubject<T> { match self { CanonicalQuadPattern::AnySubject(q) => PatternSubject::Any, CanonicalQuadPattern::GivenSubject(r, q) => PatternSubject::Given(r) } }
    pub open spec fn pp(self) -> PatternPredicate<T> { match self { CanonicalQuadPattern::AnySubject(q) => q.pp(), CanonicalQuadPattern::GivenSubject(r, q) => q.pp() } }
    pub open spec fn op(self) -> PatternObject<T> { match self { CanonicalQuadPattern::AnySubject(q) => q.op(), CanonicalQuadPattern::GivenSubject(r, q) => q.op() } }
    pub open spec fn gp(self) -> PatternGraph<T> { match self { CanonicalQuadPattern::AnySubject(q) => q.gp(), CanonicalQuadPattern::GivenSubject(r, q) => q.gp() } }
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_subject
//@ ret r
//@ spec ensures r == self.sp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_predicate
//@ ret r
//@ spec ensures r == self.pp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_object
//@ ret r
//@ spec ensures r == self.op()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_graph
//@ ret r
//@ spec ensures r == self.gp()
//@end
//@fn pattern/quad/canonical.rs | impl<T> CanonicalQuadPattern<T> | into_parts
//@ ret r
//@ spec ensures r.0 == self.sp(), r.1 == self.pp(), r.2 == self.op(), r.3 == self.gp()
//@end
}
// what each component asks of a quad; Given(None) is the default graph
pub open spec fn sat_s<R>(c: PatternSubject<&R>, u: Quad<R>) -> bool { match c { PatternSubject::Any => true, PatternSubject::Given(r) => u.0 == *r } }
pub open spec fn sat_p<R>(c: PatternPredicate<&R>, u: Quad<R>) -> bool { match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => u.1 == u.0, PatternPredicate::Given(r) => u.1 == *r } }
pub open spec fn sat_o<R>(c: PatternObject<&R>, u: Quad<R>) -> bool {
    match c { PatternObject::Any => true, PatternObject::SameAsSubject => u.2 == u.0, PatternObject::SameAsPredicate => u.2 == u.1, PatternObject::Given(r) => u.2 == *r }
}
pub open spec fn sat_g<R>(c: PatternGraph<&R>, u: Quad<R>) -> bool {
    match c {
        PatternGraph::Any => true, PatternGraph::SameAsSubject => u.3 == Some(u.0), PatternGraph::SameAsPredicate => u.3 == Some(u.1),
        PatternGraph::SameAsObject => u.3 == Some(u.2), PatternGraph::Given(r) => u.3 == deref_opt(r),
    }
}
pub open spec fn sat<R>(c: CanonicalQuadPattern<&R>, u: Quad<R>) -> bool { sat_s(c.sp(), u) && sat_p(c.pp(), u) && sat_o(c.op(), u) && sat_g(c.gp(), u) }
// the same with a set of alternatives for each given component
pub open spec fn asked<R>(xs: Seq<&R>, v: Option<R>) -> bool { exists|x: &R| #[trigger] xs.contains(x) && v == Some(*x) }
pub open spec fn msat_s<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternSubject<P>, u: Quad<R>) -> bool { match c { PatternSubject::Any => true, PatternSubject::Given(x) => asked(x.items(), Some(u.0)) } }
pub open spec fn msat_p<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternPredicate<P>, u: Quad<R>) -> bool { match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => u.1 == u.0, PatternPredicate::Given(x) => asked(x.items(), Some(u.1)) } }
pub open spec fn msat_o<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternObject<P>, u: Quad<R>) -> bool {
    match c { PatternObject::Any => true, PatternObject::SameAsSubject => u.2 == u.0, PatternObject::SameAsPredicate => u.2 == u.1, PatternObject::Given(x) => asked(x.items(), Some(u.2)) }
}
pub open spec fn msat_g<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternGraph<P>, u: Quad<R>) -> bool {
    match c {
        PatternGraph::Any => true, PatternGraph::SameAsSubject => u.3 == Some(u.0), PatternGraph::SameAsPredicate => u.3 == Some(u.1),
        PatternGraph::SameAsObject => u.3 == Some(u.2), PatternGraph::Given(Some(x)) => asked(x.items(), u.3), PatternGraph::Given(None) => u.3 is None,
    }
}
pub open spec fn msat<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: CanonicalQuadPattern<P>, u: Quad<R>) -> bool { msat_s(c.sp(), u) && msat_p(c.pp(), u) && msat_o(c.op(), u) && msat_g(c.gp(), u) }
