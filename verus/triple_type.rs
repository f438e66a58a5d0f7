// ---- statements: triples. The struct is a copy of the one in triple.rs (its derives aside); its
// comparison is assumed lexicographic here, which unit statements discharges (and Kani, c17_triple).
#[derive(Copy)]
pub struct Triple<S, P = S, O = S>(pub S, pub P, pub O);
impl<S: std::marker::Copy, P: std::marker::Copy, O: std::marker::Copy> std::clone::Clone for Triple<S, P, O> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn comp(t: Triple<usize>, c: int) -> Option<usize> {
    if c == 0 { Some(t.0) } else if c == 1 { Some(t.1) } else if c == 2 { Some(t.2) } else { None }
}
pub open spec fn slt<R: Ord>(a: Triple<R>, b: Triple<R>) -> bool {
    a.0.olt(b.0) || (a.0 == b.0 && (a.1.olt(b.1) || (a.1 == b.1 && a.2.olt(b.2))))
}
pub open spec fn derefs<R>(t: Triple<&R>) -> Triple<R> { Triple(*t.0, *t.1, *t.2) }
impl<'a, R: Ord> Triple<&'a R> {
    #[verifier::external_body]
    pub fn cmp(&self, other: &Self) -> (o: Ordering) ensures o == scmp(derefs(*self), derefs(*other)) { unimplemented!() }
}
impl<S, P, O> Triple<S, P, O> {
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | as_ref
//@ ret r
//@ spec ensures *r.0 == self.0, *r.1 == self.1, *r.2 == self.2
//@end
}
impl<S, P, O> Triple<&S, &P, &O> {
//@fn triple.rs | impl<S, P, O> Triple<&S, &P, &O> | cloned
//@ ret r
//@ spec ensures r.0 == *self.0, r.1 == *self.1, r.2 == *self.2
//@end
}
impl<'a, R> Triple<&'a R> {
    // PartialEq of statements, discharged in unit statements (and by Kani, c17)
    #[verifier::external_body]
    pub fn same(&self, o: &Self) -> (r: bool) ensures r == (derefs(*self) == derefs(*o)) { unimplemented!() }
    // Hash of statements: feeds the hasher something that depends on the value only (unit statements)
    #[verifier::external_body]
    pub fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).log() == old(state).log() + fed(derefs(*self)) { unimplemented!() }
}
