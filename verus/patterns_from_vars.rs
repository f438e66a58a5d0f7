impl<T, X: PartialEq> FromSpecImpl<TriplePattern<T, X>> for CanonicalQuadPattern<T> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: TriplePattern<T, X>) -> Self; }
impl<T, X: PartialEq> From<TriplePattern<T, X>> for CanonicalQuadPattern<T> {
//@fn pattern/quad/canonical.rs | impl<T, X: PartialEq> From<TriplePattern<T, X>> for CanonicalQuadPattern<T> | from
//@ ret r
//@ spec ensures variables::<X>() ==> qua(r, Quad($0.0, $0.1, $0.2, None))
//@ bare
//@end
}
impl<T, X: PartialEq> FromSpecImpl<QuadPattern<T, X>> for CanonicalQuadPattern<T> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: QuadPattern<T, X>) -> Self; }
impl<T, X: PartialEq> From<QuadPattern<T, X>> for CanonicalQuadPattern<T> {
//@fn pattern/quad/canonical.rs | impl<T, X: PartialEq> From<QuadPattern<T, X>> for CanonicalQuadPattern<T> | from
//@ ret r
//@ spec ensures variables::<X>() ==> qua(r, $0)
//@ bare
//@end
}
impl<T, X: PartialEq> FromSpecImpl<TriplePattern<T, X>> for CanonicalTriplePattern<T> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: TriplePattern<T, X>) -> Self; }
impl<T, X: PartialEq> From<TriplePattern<T, X>> for CanonicalTriplePattern<T> {
//@fn pattern/triple/canonical.rs | impl<T, X: PartialEq> From<TriplePattern<T, X>> for CanonicalTriplePattern<T> | from
//@ ret r
//@ spec ensures variables::<X>() ==> tri(r, $0)
//@ bare
//@end
}
