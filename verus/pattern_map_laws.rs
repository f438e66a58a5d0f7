// ---- what the number of times a value is returned means: the number of inserted patterns with it that the triple satisfies.
// The 15 patterns a triple can satisfy:
pub open spec fn cand<T>(i: int, s: T, p: T, o: T) -> CanonicalTriplePattern<T> {
    if i < 4 { CanonicalTriplePattern::AnySubject(AnySubject::AnyPredicate(
        if i == 0 { AnySubjectAnyPredicate::AnyObject } else if i == 1 { AnySubjectAnyPredicate::SameAsSubject } else if i == 2 { AnySubjectAnyPredicate::SameAsPredicate } else { AnySubjectAnyPredicate::GivenObject(o) })) }
    else if i < 7 { CanonicalTriplePattern::AnySubject(AnySubject::SameAsSubject(
        if i == 4 { AnySubjectGivenPredicate::AnyObject } else if i == 5 { AnySubjectGivenPredicate::SameAsSubject } else { AnySubjectGivenPredicate::GivenObject(o) })) }
    else if i < 10 { CanonicalTriplePattern::AnySubject(AnySubject::GivenPredicate(p,
        if i == 7 { AnySubjectGivenPredicate::AnyObject } else if i == 8 { AnySubjectGivenPredicate::SameAsSubject } else { AnySubjectGivenPredicate::GivenObject(o) })) }
    else if i < 13 { CanonicalTriplePattern::GivenSubject(s, GivenSubject::AnyPredicate(
        if i == 10 { GivenSubjectAnyPredicate::AnyObject } else if i == 11 { GivenSubjectAnyPredicate::SameAsPredicate } else { GivenSubjectAnyPredicate::GivenObject(o) })) }
    else { CanonicalTriplePattern::GivenSubject(s, GivenSubject::GivenPredicate(p,
        if i == 13 { GivenSubjectGivenPredicate::AnyObject } else { GivenSubjectGivenPredicate::GivenObject(o) })) }
}
pub open spec fn which<T>(c: CanonicalTriplePattern<T>) -> int {
    match c {
        CanonicalTriplePattern::AnySubject(AnySubject::AnyPredicate(q)) => match q { AnySubjectAnyPredicate::AnyObject => 0, AnySubjectAnyPredicate::SameAsSubject => 1, AnySubjectAnyPredicate::SameAsPredicate => 2, _ => 3 },
        CanonicalTriplePattern::AnySubject(AnySubject::SameAsSubject(q)) => match q { AnySubjectGivenPredicate::AnyObject => 4, AnySubjectGivenPredicate::SameAsSubject => 5, _ => 6 },
        CanonicalTriplePattern::AnySubject(AnySubject::GivenPredicate(_, q)) => match q { AnySubjectGivenPredicate::AnyObject => 7, AnySubjectGivenPredicate::SameAsSubject => 8, _ => 9 },
        CanonicalTriplePattern::GivenSubject(_, GivenSubject::AnyPredicate(q)) => match q { GivenSubjectAnyPredicate::AnyObject => 10, GivenSubjectAnyPredicate::SameAsPredicate => 11, _ => 12 },
        CanonicalTriplePattern::GivenSubject(_, GivenSubject::GivenPredicate(_, q)) => match q { GivenSubjectGivenPredicate::AnyObject => 13, _ => 14 },
    }
}
pub proof fn cands<T>(s: T, p: T, o: T)
    ensures
        forall|c: CanonicalTriplePattern<T>| #[trigger] sat(c, s, p, o) ==> 0 <= which(c) < 15 && c == cand(which(c), s, p, o),
        forall|i: int| 0 <= i < 15 ==> which(#[trigger] cand(i, s, p, o)) == i,
{ }
pub open spec fn h<V, T>(m: TriplePatternMap<V, T>, s: T, p: T, o: T, v: V, i: int) -> nat { n(sat(cand(i, s, p, o), s, p, o) && m.holds(cand(i, s, p, o), v)) }
// of the first k of them, those satisfied with which v is held
pub open spec fn hits<V, T>(m: TriplePatternMap<V, T>, s: T, p: T, o: T, v: V, k: int) -> nat
    decreases k
{ if k <= 0 { 0 } else { hits(m, s, p, o, v, k - 1) + h(m, s, p, o, v, k - 1) } }
proof fn hits_sum<V, T>(m: TriplePatternMap<V, T>, s: T, p: T, o: T, v: V)
    ensures hits(m, s, p, o, v, 15) == h(m, s, p, o, v, 0) + h(m, s, p, o, v, 1) + h(m, s, p, o, v, 2) + h(m, s, p, o, v, 3) + h(m, s, p, o, v, 4) + h(m, s, p, o, v, 5) + h(m, s, p, o, v, 6) + h(m, s, p, o, v, 7) + h(m, s, p, o, v, 8) + h(m, s, p, o, v, 9) + h(m, s, p, o, v, 10) + h(m, s, p, o, v, 11) + h(m, s, p, o, v, 12) + h(m, s, p, o, v, 13) + h(m, s, p, o, v, 14)
{ hide(h); reveal_with_fuel(hits, 16); }
pub proof fn once_per_pattern<V, T>(m: TriplePatternMap<V, T>, s: T, p: T, o: T, v: V)
    ensures m.total(s, p, o, v) == hits(m, s, p, o, v, 15)
{
    hits_sum(m, s, p, o, v);
    let a = m.any.any.total(s, p, o, v);
    assert(a == h(m, s, p, o, v, 0) + h(m, s, p, o, v, 1) + h(m, s, p, o, v, 2) + h(m, s, p, o, v, 3)) by { }
    assert((if s == p { m.any.same_as_subject.total(s, p, o, v) } else { 0 }) == h(m, s, p, o, v, 4) + h(m, s, p, o, v, 5) + h(m, s, p, o, v, 6)) by { }
    assert((if m.any.given@.contains_key(p) { m.any.given@[p].total(s, p, o, v) } else { 0 }) == h(m, s, p, o, v, 7) + h(m, s, p, o, v, 8) + h(m, s, p, o, v, 9)) by { }
    assert((if m.given@.contains_key(s) { m.given@[s].total(s, p, o, v) } else { 0 }) == h(m, s, p, o, v, 10) + h(m, s, p, o, v, 11) + h(m, s, p, o, v, 12) + h(m, s, p, o, v, 13) + h(m, s, p, o, v, 14)) by {
        if m.given@.contains_key(s) {
            let g = m.given@[s];
            assert(g.any.total(s, p, o, v) == h(m, s, p, o, v, 10) + h(m, s, p, o, v, 11) + h(m, s, p, o, v, 12)) by { }
            assert((if g.given@.contains_key(p) { g.given@[p].total(s, p, o, v) } else { 0 }) == h(m, s, p, o, v, 13) + h(m, s, p, o, v, 14)) by { }
        }
    }
}
// hence exactly the values of satisfied patterns
pub proof fn only_matches<V, T>(m: TriplePatternMap<V, T>, s: T, p: T, o: T, v: V)
    ensures m.total(s, p, o, v) > 0 <==> exists|c: CanonicalTriplePattern<T>| #[trigger] sat(c, s, p, o) && m.holds(c, v)
{
    once_per_pattern(m, s, p, o, v); cands(s, p, o);
    reveal_with_fuel(hits, 16);
    if exists|c: CanonicalTriplePattern<T>| #[trigger] sat(c, s, p, o) && m.holds(c, v) {
        let c = choose|c: CanonicalTriplePattern<T>| #[trigger] sat(c, s, p, o) && m.holds(c, v);
        assert(c == cand(which(c), s, p, o));
    }
}
