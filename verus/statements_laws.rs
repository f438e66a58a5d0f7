// ---- equality, order and hash of statements agree with each other whenever those of their components do
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn ord<A: Ord>(a: A, b: A) -> Ordering { a.cmp_spec(&b) }
pub open spec fn pord<A: PartialOrd>(a: A, b: A) -> Option<Ordering> { a.partial_cmp_spec(&b) }
pub open spec fn eqv<A: PartialEq>(a: A, b: A) -> bool { a.eq_spec(&b) }
pub open spec fn lawful<A: Ord + Hash>() -> bool {
    &&& <A as PartialEqSpec>::obeys_eq_spec() && <A as PartialOrdSpec>::obeys_partial_cmp_spec() && <A as OrdSpec>::obeys_cmp_spec()
    &&& forall|a: A, b: A| #![trigger ord(a, b)] pord(a, b) == Some(ord(a, b))
    &&& forall|a: A, b: A| #![trigger ord(a, b)] (ord(a, b) == Ordering::Equal) == eqv(a, b)
    &&& forall|a: A, b: A| #![trigger ord(a, b)] ord(a, b) == rev(ord(b, a))
    &&& forall|a: A, b: A, c: A| #![trigger ord(a, b), ord(b, c)] ord(a, b) != Ordering::Greater && ord(b, c) != Ordering::Greater ==> ord(a, c) == then(ord(a, b), ord(b, c))
    &&& forall|a: A, b: A| #![trigger ord(a, b)] eqv(a, b) ==> a.fed() == b.fed()
}
// (an optional component)
proof fn opt_lawful<A: Ord + Hash>(a: Option<A>, b: Option<A>, c: Option<A>)
    requires lawful::<A>()
    ensures opt_partial_cmp(a, b) == Some(opt_cmp(a, b)), (opt_cmp(a, b) == Ordering::Equal) == opt_eq(a, b), opt_cmp(a, b) == rev(opt_cmp(b, a)),
        opt_cmp(a, b) != Ordering::Greater && opt_cmp(b, c) != Ordering::Greater ==> opt_cmp(a, c) == then(opt_cmp(a, b), opt_cmp(b, c)),
        opt_eq(a, b) ==> a.fed() == b.fed(),
{
    if let (Some(x), Some(y)) = (a, b) { let _ = ord(x, y); let _ = ord(y, x); if let Some(z) = c { let _ = ord(y, z); let _ = ord(x, z); } }
}
proof fn comp_lawful<A: Ord + Hash>(a: A, b: A, c: A)
    requires lawful::<A>()
    ensures pord(a, b) == Some(ord(a, b)), (ord(a, b) == Ordering::Equal) == eqv(a, b), ord(a, b) == rev(ord(b, a)),
        ord(a, b) != Ordering::Greater && ord(b, c) != Ordering::Greater ==> ord(a, c) == then(ord(a, b), ord(b, c)),
        eqv(a, b) ==> a.fed() == b.fed(),
{ let _ = ord(a, b); let _ = ord(b, c); let _ = ord(b, a); let _ = ord(a, c); }
pub proof fn triple_lawful<S: Ord + Hash, P: Ord + Hash, O: Ord + Hash>(a: Triple<S, P, O>, b: Triple<S, P, O>, c: Triple<S, P, O>)
    requires lawful::<S>(), lawful::<P>(), lawful::<O>()
    ensures pord(a, b) == Some(ord(a, b)), (ord(a, b) == Ordering::Equal) == eqv(a, b), ord(a, b) == rev(ord(b, a)),
        ord(a, b) != Ordering::Greater && ord(b, c) != Ordering::Greater ==> ord(a, c) == then(ord(a, b), ord(b, c)),
        eqv(a, b) ==> a.fed() == b.fed(),
{ comp_lawful(a.0, b.0, c.0); comp_lawful(a.1, b.1, c.1); comp_lawful(a.2, b.2, c.2); comp_lawful(b.0, c.0, c.0); comp_lawful(b.1, c.1, c.1); comp_lawful(b.2, c.2, c.2); }
pub proof fn quad_lawful<S: Ord + Hash, P: Ord + Hash, O: Ord + Hash, G: Ord + Hash>(a: Quad<S, P, O, G>, b: Quad<S, P, O, G>, c: Quad<S, P, O, G>)
    requires lawful::<S>(), lawful::<P>(), lawful::<O>(), lawful::<G>()
    ensures pord(a, b) == Some(ord(a, b)), (ord(a, b) == Ordering::Equal) == eqv(a, b), ord(a, b) == rev(ord(b, a)),
        ord(a, b) != Ordering::Greater && ord(b, c) != Ordering::Greater ==> ord(a, c) == then(ord(a, b), ord(b, c)),
        eqv(a, b) ==> a.fed() == b.fed(),
{ comp_lawful(a.0, b.0, c.0); comp_lawful(a.1, b.1, c.1); comp_lawful(a.2, b.2, c.2); comp_lawful(b.0, c.0, c.0); comp_lawful(b.1, c.1, c.1); comp_lawful(b.2, c.2, c.2);
  opt_lawful(a.3, b.3, c.3); opt_lawful(b.3, c.3, c.3); }
