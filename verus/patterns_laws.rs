// ---- what the canonical pattern of a pattern with variables is satisfied by
pub open spec fn fixed<T, X>(c: ResourceOrVar<T, X>, v: T) -> bool { c is Resource ==> v == c->Resource_0 }
pub open spec fn linked<T, X: PartialEq>(c: ResourceOrVar<T, X>, d: ResourceOrVar<T, X>) -> bool { c is Var && d is Var && same(c->Var_0, d->Var_0) }
pub open spec fn triple_means<T, X: PartialEq>(p: TriplePattern<T, X>, u: Triple<T>) -> bool {
    &&& fixed(p.0, u.0) && fixed(p.1, u.1) && fixed(p.2, u.2)
    &&& (linked(p.0, p.1) ==> u.0 == u.1) && (linked(p.0, p.2) ==> u.0 == u.2) && (linked(p.1, p.2) ==> u.1 == u.2)
}
pub open spec fn glinked<T, X: PartialEq>(c: ResourceOrVar<T, X>, d: Option<ResourceOrVar<T, X>>) -> bool { d is Some && linked(c, d->0) }
pub open spec fn quad_means<T, X: PartialEq>(p: QuadPattern<T, X>, u: Quad<T>) -> bool {
    &&& triple_means(Triple(p.0, p.1, p.2), Triple(u.0, u.1, u.2))
    &&& match p.3 { None => u.3 is None, Some(ResourceOrVar::Resource(g)) => u.3 == Some(g), Some(ResourceOrVar::Var(g)) => true }
    &&& (glinked(p.0, p.3) ==> u.3 == Some(u.0)) && (glinked(p.1, p.3) ==> u.3 == Some(u.1)) && (glinked(p.2, p.3) ==> u.3 == Some(u.2))
}
pub open spec fn tri<T, X: PartialEq>(c: CanonicalTriplePattern<T>, p: TriplePattern<T, X>) -> bool {
    c.sp() == triple::canonical::of_sp(p.0) && c.pp() == triple::canonical::of_pp(var(p.0), p.1) && c.op() == triple::canonical::of_op(var(p.0), var(p.1), p.2)
}
pub open spec fn qua<T, X: PartialEq>(c: CanonicalQuadPattern<T>, p: QuadPattern<T, X>) -> bool {
    &&& c.sp() == quad::canonical::of_sp(p.0) && c.pp() == quad::canonical::of_pp(var(p.0), p.1) && c.op() == quad::canonical::of_op(var(p.0), var(p.1), p.2)
    &&& c.gp() == quad::canonical::of_gp(var(p.0), var(p.1), var(p.2), p.3)
}
pub proof fn triple_meaning<T, X: PartialEq>(p: TriplePattern<T, X>, c: CanonicalTriplePattern<T>, u: Triple<T>)
    requires variables::<X>(), tri(c, p)
    ensures triple::canonical::sat(c, u) == triple_means(p, u)
{}
pub proof fn quad_meaning<T, X: PartialEq>(p: QuadPattern<T, X>, c: CanonicalQuadPattern<T>, u: Quad<T>)
    requires variables::<X>(), qua(c, p)
    ensures quad::canonical::sat(c, u) == quad_means(p, u)
{}
// a triple pattern with variables used as a quad pattern addresses the default graph
pub proof fn triple_as_quad_meaning<T, X: PartialEq>(p: TriplePattern<T, X>, c: CanonicalQuadPattern<T>, u: Quad<T>)
    requires variables::<X>(), qua(c, Quad(p.0, p.1, p.2, None))
    ensures quad::canonical::sat(c, u) == (u.3 is None && triple_means(p, Triple(u.0, u.1, u.2)))
{}
// ---- renaming variables (the new variables being equal exactly when the old ones are) changes nothing
pub open spec fn renamed<T, X: PartialEq, Y: PartialEq>(a: ResourceOrVar<T, X>, b: ResourceOrVar<T, Y>) -> bool {
    match (a, b) { (ResourceOrVar::Resource(x), ResourceOrVar::Resource(y)) => x == y, (ResourceOrVar::Var(v), ResourceOrVar::Var(w)) => true, _ => false }
}
pub open spec fn links_kept<T, X: PartialEq, Y: PartialEq>(a: ResourceOrVar<T, X>, a2: ResourceOrVar<T, X>, b: ResourceOrVar<T, Y>, b2: ResourceOrVar<T, Y>) -> bool { linked(a, a2) == linked(b, b2) }
pub proof fn quad_renaming<T, X: PartialEq, Y: PartialEq>(p: QuadPattern<T, X>, q: QuadPattern<T, Y>, c: CanonicalQuadPattern<T>, d: CanonicalQuadPattern<T>)
    requires variables::<X>(), variables::<Y>(), qua(c, p), qua(d, q), renamed(p.0, q.0), renamed(p.1, q.1), renamed(p.2, q.2), p.3 is Some == q.3 is Some, p.3 is Some ==> renamed(p.3->0, q.3->0),
        linked(p.0, p.1) == linked(q.0, q.1), linked(p.0, p.2) == linked(q.0, q.2), linked(p.1, p.2) == linked(q.1, q.2),
        glinked(p.0, p.3) == glinked(q.0, q.3), glinked(p.1, p.3) == glinked(q.1, q.3), glinked(p.2, p.3) == glinked(q.2, q.3)
    ensures c == d
{ quad_determined(c, d); }
pub proof fn triple_renaming<T, X: PartialEq, Y: PartialEq>(p: TriplePattern<T, X>, q: TriplePattern<T, Y>, c: CanonicalTriplePattern<T>, d: CanonicalTriplePattern<T>)
    requires variables::<X>(), variables::<Y>(), tri(c, p), tri(d, q), renamed(p.0, q.0), renamed(p.1, q.1), renamed(p.2, q.2),
        linked(p.0, p.1) == linked(q.0, q.1), linked(p.0, p.2) == linked(q.0, q.2), linked(p.1, p.2) == linked(q.1, q.2)
    ensures c == d
{ triple_determined(c, d); }
// ---- partial and full statements
pub proof fn partial_meaning<T>(p: Quad<Option<T>>, c: CanonicalQuadPattern<T>, u: Quad<T>)
    requires c.sp() == quad::canonical::opt_sp(p.0), c.pp() == quad::canonical::opt_pp(p.1), c.op() == quad::canonical::opt_op(p.2), c.gp() == quad::canonical::opt_gp(p.3)
    ensures quad::canonical::sat(c, u) == ((p.0 is Some ==> u.0 == p.0->0) && (p.1 is Some ==> u.1 == p.1->0) && (p.2 is Some ==> u.2 == p.2->0) && (p.3 is Some ==> u.3 == p.3->0))
{}
// ---- fixing a component is substitution: the new pattern is satisfied by exactly the statements with the resource
// there that satisfied the old one, a constraint fixing that very component being dropped from the old one
pub open spec fn but_sp<T>(c: triple::canonical::PatternSubject<T>) -> triple::canonical::PatternSubject<T> { triple::canonical::PatternSubject::Any }
pub open spec fn but_pp<T>(c: triple::canonical::PatternPredicate<T>) -> triple::canonical::PatternPredicate<T> { if c is Given { triple::canonical::PatternPredicate::Any } else { c } }
pub open spec fn but_op<T>(c: triple::canonical::PatternObject<T>) -> triple::canonical::PatternObject<T> { if c is Given { triple::canonical::PatternObject::Any } else { c } }
pub open spec fn sat3<T>(s: triple::canonical::PatternSubject<T>, p: triple::canonical::PatternPredicate<T>, o: triple::canonical::PatternObject<T>, u: Triple<T>) -> bool {
    triple::canonical::sat_sp(s, u.0) && triple::canonical::sat_pp(p, u.0, u.1) && triple::canonical::sat_op(o, u.0, u.1, u.2)
}
pub proof fn substitution_s<T>(a: CanonicalTriplePattern<T>, x: T, r: triple::canonical::PatternSubject<T>, b: CanonicalTriplePattern<T>, u: Triple<T>)
    requires triple::canonical::set_sp(a, x, r, b)
    ensures triple::canonical::sat(b, u) == (u.0 == x && sat3(but_sp(a.sp()), a.pp(), a.op(), u))
{}
pub proof fn substitution_p<T>(a: CanonicalTriplePattern<T>, x: T, r: triple::canonical::PatternPredicate<T>, b: CanonicalTriplePattern<T>, u: Triple<T>)
    requires triple::canonical::set_pp(a, x, r, b)
    ensures triple::canonical::sat(b, u) == (u.1 == x && sat3(a.sp(), but_pp(a.pp()), a.op(), u))
{}
pub proof fn substitution_o<T>(a: CanonicalTriplePattern<T>, x: T, r: triple::canonical::PatternObject<T>, b: CanonicalTriplePattern<T>, u: Triple<T>)
    requires triple::canonical::set_op(a, x, r, b)
    ensures triple::canonical::sat(b, u) == (u.2 == x && sat3(a.sp(), a.pp(), but_op(a.op()), u))
{}
