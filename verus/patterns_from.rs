pub open spec fn quad_of_triple<T>(v: Triple<T>) -> CanonicalQuadPattern<T> { choose|r: CanonicalQuadPattern<T>| r.sp() == quad::canonical::PatternSubject::Given(v.0) && r.pp() == quad::canonical::PatternPredicate::Given(v.1) && r.op() == quad::canonical::PatternObject::Given(v.2) && r.gp() is Any }
impl<T> FromSpecImpl<Triple<T>> for CanonicalQuadPattern<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Triple<T>) -> Self { quad_of_triple(v) }
}
impl<T> From<Triple<T>> for CanonicalQuadPattern<T> {
//@fn pattern/quad/canonical.rs | impl<T> From<Triple<T>> for CanonicalQuadPattern<T> | from
//@ ret r
//@ proof assert forall|r: Self| #[trigger] r.sp() == quad::canonical::PatternSubject::Given($0.0) && r.pp() == quad::canonical::PatternPredicate::Given($0.1) && r.op() == quad::canonical::PatternObject::Given($0.2) && r.gp() is Any implies r == quad_of_triple($0) by { quad_determined(r, quad_of_triple($0)); }
//@ spec ensures r.sp() == quad::canonical::PatternSubject::Given($0.0), r.pp() == quad::canonical::PatternPredicate::Given($0.1), r.op() == quad::canonical::PatternObject::Given($0.2), r.gp() is Any
//@ bare
//@end
}
pub open spec fn quad_of_quad<T>(v: Quad<T>) -> CanonicalQuadPattern<T> { choose|r: CanonicalQuadPattern<T>| r.sp() == quad::canonical::PatternSubject::Given(v.0) && r.pp() == quad::canonical::PatternPredicate::Given(v.1) && r.op() == quad::canonical::PatternObject::Given(v.2) && r.gp() == quad::canonical::PatternGraph::Given(v.3) }
impl<T> FromSpecImpl<Quad<T>> for CanonicalQuadPattern<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Quad<T>) -> Self { quad_of_quad(v) }
}
impl<T> From<Quad<T>> for CanonicalQuadPattern<T> {
//@fn pattern/quad/canonical.rs | impl<T> From<Quad<T>> for CanonicalQuadPattern<T> | from
//@ ret r
//@ proof assert forall|r: Self| #[trigger] r.sp() == quad::canonical::PatternSubject::Given($0.0) && r.pp() == quad::canonical::PatternPredicate::Given($0.1) && r.op() == quad::canonical::PatternObject::Given($0.2) && r.gp() == quad::canonical::PatternGraph::Given($0.3) implies r == quad_of_quad($0) by { quad_determined(r, quad_of_quad($0)); }
//@ spec ensures r.sp() == quad::canonical::PatternSubject::Given($0.0), r.pp() == quad::canonical::PatternPredicate::Given($0.1), r.op() == quad::canonical::PatternObject::Given($0.2), r.gp() == quad::canonical::PatternGraph::Given($0.3)
//@ bare
//@end
}
impl<T> FromSpecImpl<Triple<Option<T>>> for CanonicalQuadPattern<T> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Triple<Option<T>>) -> Self; }
impl<T> From<Triple<Option<T>>> for CanonicalQuadPattern<T> {
//@fn pattern/quad/canonical.rs | impl<T> From<Triple<Option<T>>> for CanonicalQuadPattern<T> | from
//@ ret r
//@ spec ensures r.sp() == quad::canonical::opt_sp($0.0), r.pp() == quad::canonical::opt_pp($0.1), r.op() == quad::canonical::opt_op($0.2), r.gp() is Any
//@ bare
//@end
}
impl<T> FromSpecImpl<Quad<Option<T>>> for CanonicalQuadPattern<T> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Quad<Option<T>>) -> Self; }
impl<T> From<Quad<Option<T>>> for CanonicalQuadPattern<T> {
//@fn pattern/quad/canonical.rs | impl<T> From<Quad<Option<T>>> for CanonicalQuadPattern<T> | from
//@ ret r
//@ spec ensures r.sp() == quad::canonical::opt_sp($0.0), r.pp() == quad::canonical::opt_pp($0.1), r.op() == quad::canonical::opt_op($0.2), r.gp() == quad::canonical::opt_gp($0.3)
//@ bare
//@end
}
pub open spec fn triple_of_triple<T>(v: Triple<T>) -> CanonicalTriplePattern<T> { choose|r: CanonicalTriplePattern<T>| r.sp() == triple::canonical::PatternSubject::Given(v.0) && r.pp() == triple::canonical::PatternPredicate::Given(v.1) && r.op() == triple::canonical::PatternObject::Given(v.2) }
impl<T> FromSpecImpl<Triple<T>> for CanonicalTriplePattern<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Triple<T>) -> Self { triple_of_triple(v) }
}
impl<T> From<Triple<T>> for CanonicalTriplePattern<T> {
//@fn pattern/triple/canonical.rs | impl<T> From<Triple<T>> for CanonicalTriplePattern<T> | from
//@ ret r
//@ proof assert forall|r: Self| #[trigger] r.sp() == triple::canonical::PatternSubject::Given($0.0) && r.pp() == triple::canonical::PatternPredicate::Given($0.1) && r.op() == triple::canonical::PatternObject::Given($0.2) implies r == triple_of_triple($0) by { triple_determined(r, triple_of_triple($0)); }
//@ spec ensures r.sp() == triple::canonical::PatternSubject::Given($0.0), r.pp() == triple::canonical::PatternPredicate::Given($0.1), r.op() == triple::canonical::PatternObject::Given($0.2)
//@ bare
//@end
}
impl<T> FromSpecImpl<Triple<Option<T>, Option<T>, Option<T>>> for CanonicalTriplePattern<T> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Triple<Option<T>, Option<T>, Option<T>>) -> Self; }
impl<T> From<Triple<Option<T>, Option<T>, Option<T>>> for CanonicalTriplePattern<T> {
//@fn pattern/triple/canonical.rs | impl<T> From<Triple<Option<T>, Option<T>, Option<T>>> for CanonicalTriplePattern<T> | from
//@ ret r
//@ spec ensures r.sp() == triple::canonical::opt_sp($0.0), r.pp() == triple::canonical::opt_pp($0.1), r.op() == triple::canonical::opt_op($0.2)
//@ bare
//@end
}
