//@item triple.rs | Triple | `S = LocalTerm` => `S`
//@item quad.rs | Quad | `S = LocalTerm` => `S`
//@item pattern/resource_or_variable.rs | ResourceOrVar
pub type TriplePattern<T, X> = Triple<ResourceOrVar<T, X>>;
pub type QuadPattern<T, X> = Quad<ResourceOrVar<T, X>>;
pub open spec fn deref_opt<R>(g: Option<&R>) -> Option<R> { match g { Some(x) => Some(*x), None => None } }
// core::clone::Clone on resources: the clone is the same value.
pub trait Clone: Sized {
    fn clone(&self) -> (r: Self) ensures r == *self;
}
pub open spec fn same<X: PartialEq>(a: X, b: X) -> bool { vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) }
// assumption on variables: == is an equivalence
pub open spec fn variables<X: PartialEq>() -> bool {
    &&& <X as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec()
    &&& forall|a: X| #[trigger] same(a, a)
    &&& forall|a: X, b: X| #[trigger] same(a, b) == same(b, a)
    &&& forall|a: X, b: X, c: X| #[trigger] same(a, b) && #[trigger] same(b, c) ==> same(a, c)
}
pub open spec fn shares<X: PartialEq>(v: X, w: Option<X>) -> bool { w is Some && same(v, w->0) }
pub open spec fn var<T, X>(c: ResourceOrVar<T, X>) -> Option<X> { match c { ResourceOrVar::Var(v) => Some(v), _ => None } }
// the constraint of a triple pattern and that of a quad pattern are the same
pub open spec fn triple_sp<T>(a: triple::canonical::PatternSubject<T>, b: quad::canonical::PatternSubject<T>) -> bool {
    match (a, b) { (triple::canonical::PatternSubject::Any, quad::canonical::PatternSubject::Any) => true, (triple::canonical::PatternSubject::Given(x), quad::canonical::PatternSubject::Given(y)) => x == y, _ => false }
}
pub open spec fn triple_pp<T>(a: triple::canonical::PatternPredicate<T>, b: quad::canonical::PatternPredicate<T>) -> bool {
    match (a, b) {
        (triple::canonical::PatternPredicate::Any, quad::canonical::PatternPredicate::Any) => true, (triple::canonical::PatternPredicate::SameAsSubject, quad::canonical::PatternPredicate::SameAsSubject) => true,
        (triple::canonical::PatternPredicate::Given(x), quad::canonical::PatternPredicate::Given(y)) => x == y, _ => false,
    }
}
pub open spec fn triple_op<T>(a: triple::canonical::PatternObject<T>, b: quad::canonical::PatternObject<T>) -> bool {
    match (a, b) {
        (triple::canonical::PatternObject::Any, quad::canonical::PatternObject::Any) => true, (triple::canonical::PatternObject::SameAsSubject, quad::canonical::PatternObject::SameAsSubject) => true,
        (triple::canonical::PatternObject::SameAsPredicate, quad::canonical::PatternObject::SameAsPredicate) => true,
        (triple::canonical::PatternObject::Given(x), quad::canonical::PatternObject::Given(y)) => x == y, _ => false,
    }
}
// replace-with: the value is replaced by the second component of what the function makes of it
#[verifier::external_body]
pub fn replace_with_or_abort_and_return<T, U, F: FnOnce(T) -> (U, T)>(dest: &mut T, f: F) -> (r: U)
    requires f.requires((*old(dest),)) ensures f.ensures((*old(dest),), (r, *final(dest))) { unimplemented!() }
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
