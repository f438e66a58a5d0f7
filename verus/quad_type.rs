// ---- statements: quads. The struct is a copy of the one in quad.rs (its derives aside); its
// comparison is assumed lexicographic here (no graph first), which unit statements discharges (and Kani, c17_quad).
#[derive(Copy)]
pub struct Quad<S, P = S, O = S, G = S>(pub S, pub P, pub O, pub Option<G>);
impl<S: std::marker::Copy, P: std::marker::Copy, O: std::marker::Copy, G: std::marker::Copy> std::clone::Clone for Quad<S, P, O, G> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn comp(t: Quad<usize>, c: int) -> Option<usize> {
    if c == 0 { Some(t.0) } else if c == 1 { Some(t.1) } else if c == 2 { Some(t.2) } else if c == 3 { t.3 } else { None }
}
pub open spec fn glt<R: Ord>(a: Option<R>, b: Option<R>) -> bool {
    match (a, b) { (None, Some(_)) => true, (Some(x), Some(y)) => x.olt(y), _ => false }
}
pub open spec fn slt<R: Ord>(a: Quad<R>, b: Quad<R>) -> bool {
    a.0.olt(b.0) || (a.0 == b.0 && (a.1.olt(b.1) || (a.1 == b.1 && (a.2.olt(b.2) || (a.2 == b.2 && glt(a.3, b.3))))))
}
pub open spec fn deref_opt<R>(g: Option<&R>) -> Option<R> { match g { Some(x) => Some(*x), None => None } }
pub open spec fn derefs<R>(t: Quad<&R>) -> Quad<R> { Quad(*t.0, *t.1, *t.2, deref_opt(t.3)) }
impl<'a, R: Ord> Quad<&'a R> {
    #[verifier::external_body]
    pub fn cmp(&self, other: &Self) -> (o: Ordering) ensures o == scmp(derefs(*self), derefs(*other)) { unimplemented!() }
}
impl<S, P, O, G> Quad<S, P, O, G> {
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | as_ref
//@ ret r
//@ spec ensures *r.0 == self.0, *r.1 == self.1, *r.2 == self.2, deref_opt(r.3) == self.3
//@end
}
#[verifier::external_body]
pub fn cloned_opt<G: Clone>(g: Option<&G>) -> (r: Option<G>) ensures r == deref_opt(g) { unimplemented!() }
impl<S, P, O, G> Quad<&S, &P, &O, &G> {
//@fn quad.rs | impl<S, P, O, G> Quad<&S, &P, &O, &G> | cloned
//@ ret r
//@ subst `self.3.cloned()` => `cloned_opt(self.3)`
//@ spec ensures r.0 == *self.0, r.1 == *self.1, r.2 == *self.2, r.3 == deref_opt(self.3)
//@end
}
impl<'a, R> Quad<&'a R> {
    // PartialEq of statements, discharged in unit statements (and by Kani, c17)
    #[verifier::external_body]
    pub fn same(&self, o: &Self) -> (r: bool) ensures r == (derefs(*self) == derefs(*o)) { unimplemented!() }
    // Hash of statements: feeds the hasher something that depends on the value only (unit statements)
    #[verifier::external_body]
    pub fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).log() == old(state).log() + fed(derefs(*self)) { unimplemented!() }
}
