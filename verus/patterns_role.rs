// ---- components of patterns with variables
pub open spec fn role_as<T, X, U, Y>(a: ResourceOrVar<T, X>, b: ResourceOrVar<U, Y>, f: spec_fn(T, U) -> bool, g: spec_fn(X, Y) -> bool) -> bool {
    match (a, b) { (ResourceOrVar::Resource(x), ResourceOrVar::Resource(y)) => f(x, y), (ResourceOrVar::Var(x), ResourceOrVar::Var(y)) => g(x, y), _ => false }
}
impl<T, X> ResourceOrVar<T, X> {
//@fn pattern/resource_or_variable.rs | impl<T, X> ResourceOrVar<T, X> | map
//@ ret r
//@ spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures role_as(self, r, |x: T, y: U| $1.ensures((x,), y), |x: X, y: X| x == y)
//@end
//@fn pattern/resource_or_variable.rs | impl<T, X> ResourceOrVar<T, X> | as_ref
//@ ret r
//@ spec ensures role_as(*self, r, |x: T, y: &T| *y == x, |x: X, y: &X| *y == x)
//@end
//@fn pattern/resource_or_variable.rs | impl<T, X> ResourceOrVar<T, X> | is_id_or
//@ ret r
//@ spec requires forall|x: X| #[trigger] $1.requires((&x,)) ensures match *self { ResourceOrVar::Resource(_) => r, ResourceOrVar::Var(x) => $1.ensures((&x,), r) }
//@end
}
impl<T, X> FromSpecImpl<T> for ResourceOrVar<T, X> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T) -> Self { ResourceOrVar::Resource(v) } }
impl<T, X> From<T> for ResourceOrVar<T, X> {
//@fn pattern/resource_or_variable.rs | impl<T, X> From<T> for ResourceOrVar<T, X> | from
//@ ret r
//@ spec ensures r == ResourceOrVar::<T, X>::Resource($0)
//@ bare
//@end
}
