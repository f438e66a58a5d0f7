// ---- the laws assumed of the comparisons of str, iref and langtag
pub open spec fn lawful(eq: spec_fn(Seq<char>, Seq<char>) -> bool, cmp: spec_fn(Seq<char>, Seq<char>) -> Ordering, hash: spec_fn(Seq<char>) -> Seq<Fed>) -> bool {
    &&& forall|a, b| #![trigger cmp(a, b)] (cmp(a, b) == Ordering::Equal) == eq(a, b)
    &&& forall|a, b| #![trigger cmp(a, b)] cmp(a, b) == rev(cmp(b, a))
    &&& forall|a, b, c| #![trigger cmp(a, b), cmp(b, c)] cmp(a, b) != Ordering::Greater && cmp(b, c) != Ordering::Greater ==> cmp(a, c) == then(cmp(a, b), cmp(b, c))
    &&& forall|a, b| #![trigger eq(a, b)] eq(a, b) ==> hash(a) == hash(b)
}
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn laws() -> bool {
    &&& lawful(|a, b| a == b, |a, b| str_cmp(a, b), |a| str_hash(a))
    &&& lawful(|a, b| iri_eq(a, b), |a, b| iri_cmp(a, b), |a| iri_hash(a))
    &&& lawful(|a, b| tag_eq(a, b), |a, b| tag_cmp(a, b), |a| tag_hash(a))
}
// ---- equality, order and hash of the values agree with each other
pub proof fn type_lawful(a: TypeV, b: TypeV, c: TypeV)
    requires laws()
    ensures (type_cmp(a, b) == Ordering::Equal) == type_eq(a, b), type_cmp(a, b) == rev(type_cmp(b, a)), type_eq(a, b) ==> type_hash(a) == type_hash(b),
        type_cmp(a, b) != Ordering::Greater && type_cmp(b, c) != Ordering::Greater ==> type_cmp(a, c) == then(type_cmp(a, b), type_cmp(b, c)),
{
    instances(a.text(), b.text(), c.text());
}
pub proof fn lit_lawful(a: LitV, b: LitV, c: LitV)
    requires laws()
    ensures (lit_cmp(a, b) == Ordering::Equal) == lit_eq(a, b), lit_cmp(a, b) == rev(lit_cmp(b, a)), lit_eq(a, b) ==> lit_hash(a) == lit_hash(b),
        lit_cmp(a, b) != Ordering::Greater && lit_cmp(b, c) != Ordering::Greater ==> lit_cmp(a, c) == then(lit_cmp(a, b), lit_cmp(b, c)),
{
    instances(a.value, b.value, c.value); type_lawful(a.ty, b.ty, c.ty);
}
pub proof fn term_lawful(a: TermV, b: TermV, c: TermV)
    requires laws()
    ensures (term_cmp(a, b) == Ordering::Equal) == term_eq(a, b), term_cmp(a, b) == rev(term_cmp(b, a)), term_eq(a, b) ==> term_hash(a) == term_hash(b),
        term_cmp(a, b) != Ordering::Greater && term_cmp(b, c) != Ordering::Greater ==> term_cmp(a, c) == then(term_cmp(a, b), term_cmp(b, c)),
{
    match (a, b, c) {
        (TermV::Lit(x), TermV::Lit(y), TermV::Lit(z)) => lit_lawful(x, y, z),
        (TermV::Lit(x), TermV::Lit(y), _) => lit_lawful(x, y, y),
        (TermV::Iri(x), TermV::Iri(y), TermV::Iri(z)) => instances(x, y, z),
        (TermV::Iri(x), TermV::Iri(y), _) => instances(x, y, y),
        (_, TermV::Lit(y), TermV::Lit(z)) => lit_lawful(y, z, z),
        (_, TermV::Iri(y), TermV::Iri(z)) => instances(y, z, z),
        _ => { }
    }
}
pub proof fn local_lawful(a: LocalV, b: LocalV, c: LocalV)
    requires laws()
    ensures (local_cmp(a, b) == Ordering::Equal) == local_eq(a, b), local_cmp(a, b) == rev(local_cmp(b, a)), local_eq(a, b) ==> local_hash(a) == local_hash(b),
        local_cmp(a, b) != Ordering::Greater && local_cmp(b, c) != Ordering::Greater ==> local_cmp(a, c) == then(local_cmp(a, b), local_cmp(b, c)),
{
    match (a, b, c) {
        (LocalV::Named(x), LocalV::Named(y), LocalV::Named(z)) => term_lawful(x, y, z),
        (LocalV::Named(x), LocalV::Named(y), _) => term_lawful(x, y, y),
        (LocalV::Anon(x), LocalV::Anon(y), LocalV::Anon(z)) => instances(x, y, z),
        (LocalV::Anon(x), LocalV::Anon(y), _) => instances(x, y, y),
        (_, LocalV::Named(y), LocalV::Named(z)) => term_lawful(y, z, z),
        (_, LocalV::Anon(y), LocalV::Anon(z)) => instances(y, z, z),
        _ => { }
    }
}
impl TypeV { pub open spec fn text(self) -> Seq<char> { match self { TypeV::Any(x) => x, TypeV::Lang(x) => x } } }
pub open spec fn inst(eq: spec_fn(Seq<char>, Seq<char>) -> bool, cmp: spec_fn(Seq<char>, Seq<char>) -> Ordering, hash: spec_fn(Seq<char>) -> Seq<Fed>, a: Seq<char>, b: Seq<char>, c: Seq<char>) -> bool {
    &&& (cmp(a, b) == Ordering::Equal) == eq(a, b) &&& cmp(a, b) == rev(cmp(b, a)) &&& (eq(a, b) ==> hash(a) == hash(b))
    &&& (cmp(b, c) == Ordering::Equal) == eq(b, c) &&& cmp(b, c) == rev(cmp(c, b))
    &&& (cmp(a, b) != Ordering::Greater && cmp(b, c) != Ordering::Greater ==> cmp(a, c) == then(cmp(a, b), cmp(b, c)))
}
pub proof fn instances(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires laws()
    ensures inst(|a, b| a == b, |a, b| str_cmp(a, b), |a| str_hash(a), a, b, c),
        inst(|a, b| iri_eq(a, b), |a, b| iri_cmp(a, b), |a| iri_hash(a), a, b, c), inst(|a, b| tag_eq(a, b), |a, b| tag_cmp(a, b), |a| tag_hash(a), a, b, c),
{ }
