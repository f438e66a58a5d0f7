// ---- statements
#[derive(Copy)]
pub struct Quad<S, P = S, O = S, G = S>(pub S, pub P, pub O, pub Option<G>);
impl<S: std::marker::Copy, P: std::marker::Copy, O: std::marker::Copy, G: std::marker::Copy> std::clone::Clone for Quad<S, P, O, G> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- interpretation/mod.rs: the names of a resource (their Eq is that of the IRIs and literals they are)
#[verifier::external_body]
pub struct Name(u8);
impl Name { pub uninterp spec fn id(&self) -> int; }
impl PartialEq for Name {
    #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl PartialEqSpecImpl for Name {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.id() == o.id() }
}
pub open spec fn named(s: Seq<Name>, n: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).id() == n }
pub proof fn named_step()
    ensures forall|s: Seq<Name>, n: int| #![trigger named(s.skip(1), n)] s.len() > 0 ==> (named(s, n) <==> s[0].id() == n || named(s.skip(1), n)), forall|s: Seq<Name>, n: int| #[trigger] named(s, n) ==> s.len() > 0, forall|s: Seq<Name>| s.len() > 0 ==> named(s, (#[trigger] s[0]).id())
{
    assert forall|s: Seq<Name>, n: int| #![trigger named(s.skip(1), n)] s.len() > 0 implies (named(s, n) <==> s[0].id() == n || named(s.skip(1), n)) by {
        if named(s, n) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).id() == n; if k > 0 { assert(s.skip(1)[k - 1] == s[k]); } }
        if named(s.skip(1), n) { let k = choose|k: int| 0 <= k < s.skip(1).len() && (#[trigger] s.skip(1)[k]).id() == n; assert(s[k + 1] == s.skip(1)[k]); }
    }
}
pub proof fn names_say<I: Names>(i: &I)
    requires identifies(i)
    ensures forall|a: &I::Resource, b: &I::Resource, n: int| #[trigger] i.iri(a, n) && #[trigger] i.iri(b, n) ==> *a == *b, forall|a: &I::Resource, b: &I::Resource, n: int| #[trigger] i.lit(a, n) && #[trigger] i.lit(b, n) ==> *a == *b
{
    assert forall|a: &I::Resource, b: &I::Resource, n: int| #[trigger] i.iri(a, n) && #[trigger] i.iri(b, n) implies *a == *b by { assert(shares(i, a, b)); }
    assert forall|a: &I::Resource, b: &I::Resource, n: int| #[trigger] i.lit(a, n) && #[trigger] i.lit(b, n) implies *a == *b by { assert(shares(i, a, b)); }
}
pub trait ReverseInterpretation: Names {
    type Iris<'a>: Iterator<Item = Name> where Self: 'a;
    type Literals<'a>: Iterator<Item = Name> where Self: 'a;
    fn iris_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: Self::Iris<'a>) ensures forall|n: int| #![trigger self.iri(resource, n)] #![trigger named(r.rest(), n)] self.iri(resource, n) == named(r.rest(), n);
    fn literals_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: Self::Literals<'a>) ensures forall|n: int| #![trigger self.lit(resource, n)] #![trigger named(r.rest(), n)] self.lit(resource, n) == named(r.rest(), n);
    // (discharged in unit interpretation)
    fn is_anonymous(&self, resource: &Self::Resource) -> (r: bool) ensures r == anon(self, resource);
}
// interpretation/impl/none.rs: a term is its own name (contracts discharged in unit interpretation)
pub enum LocalV { Anon(int), Iri(int), Lit(int) }
#[verifier::external_body]
pub struct LocalTerm(u8);
impl LocalTerm {
    pub uninterp spec fn v(&self) -> LocalV;
    #[verifier::external_body]
    pub proof fn is_its_value() ensures forall|a: &LocalTerm, b: &LocalTerm| #[trigger] a.v() == #[trigger] b.v() ==> *a == *b {}
}
impl Ord for LocalTerm {}
impl Names for () {
    type Resource = LocalTerm;
    open spec fn iri(&self, r: &LocalTerm, n: int) -> bool { r.v() == LocalV::Iri(n) }
    open spec fn lit(&self, r: &LocalTerm, n: int) -> bool { r.v() == LocalV::Lit(n) }
}
impl ReverseInterpretation for () {
    type Iris<'a> = AnyIter<Name>;
    type Literals<'a> = AnyIter<Name>;
    #[verifier::external_body] fn iris_of<'a>(&'a self, resource: &'a LocalTerm) -> AnyIter<Name> { unimplemented!() }
    #[verifier::external_body] fn literals_of<'a>(&'a self, resource: &'a LocalTerm) -> AnyIter<Name> { unimplemented!() }
    #[verifier::external_body] fn is_anonymous(&self, resource: &LocalTerm) -> bool { unimplemented!() }
}
pub proof fn terms_identify()
    ensures identifies(&())
{
    LocalTerm::is_its_value();
    assert forall|a: &LocalTerm, b: &LocalTerm| #[trigger] shares(&(), a, b) implies *a == *b by {
        if exists|n: int| #[trigger] ().iri(a, n) && ().iri(b, n) { let n = choose|n: int| #[trigger] ().iri(a, n) && ().iri(b, n); assert(a.v() == LocalV::Iri(n)); assert(b.v() == LocalV::Iri(n)); }
        else { let n = choose|n: int| #[trigger] ().lit(a, n) && ().lit(b, n); assert(a.v() == LocalV::Lit(n)); assert(b.v() == LocalV::Lit(n)); }
    }
}
// ---- datasets: a listing of the quads, each once (discharged for each store in its unit)
pub trait Dataset { type Resource; }
pub trait TraversableDataset: Dataset {
    type Quads<'a>: Iterator<Item = Quad<&'a Self::Resource>> where Self: 'a;
    spec fn listed<'a>(&'a self) -> Seq<Quad<&'a Self::Resource>>;
    proof fn distinct(&self) ensures self.listed().no_duplicates();
    fn quads<'a>(&'a self) -> (r: Self::Quads<'a>) ensures r.rest().no_duplicates(), forall|q: Quad<&Self::Resource>| #[trigger] r.rest().contains(q) <==> self.listed().contains(q);
    fn quads_count(&self) -> (r: usize) ensures r == self.listed().len();
}
// ---- dataset/isomorphism.rs
//@item dataset/isomorphism.rs | BlankSignature | #[verifier::reject_recursive_types(R)]
//@item dataset/isomorphism.rs | BTreeBijection | #[verifier::reject_recursive_types(R)] | `R = LocalTerm` => `R`
//@fn dataset/isomorphism.rs | | resource_matches
//@ ret r
//@ ghost a0 = $1
//@ ghost b0 = $2
//@ loop 0 invariant forall|n: int| #![trigger $0.iri(a0, n)] #![trigger named(__it0.rest(), n)] (named(__it0.rest(), n) ==> $0.iri(a0, n)) && ($0.iri(a0, n) && $0.iri(b0, n) ==> named(__it0.rest(), n))
//@| decreases __it0.rest().len()
//@ loop 1 invariant $0.iri(a0, a.id()),
//@|    forall|n: int| #![trigger $0.iri(a0, n)] #![trigger named(__it0.rest(), n)] (named(__it0.rest(), n) ==> $0.iri(a0, n)) && ($0.iri(a0, n) && $0.iri(b0, n) ==> n == a.id() || named(__it0.rest(), n)),
//@|    forall|n: int| #![trigger $0.iri(b0, n)] #![trigger named(__it1.rest(), n)] (named(__it1.rest(), n) ==> $0.iri(b0, n)) && ($0.iri(b0, n) && n == a.id() ==> named(__it1.rest(), n))
//@| decreases __it1.rest().len()
//@ loop 2 invariant forall|n: int| #![trigger $0.lit(a0, n)] #![trigger named(__it2.rest(), n)] (named(__it2.rest(), n) ==> $0.lit(a0, n)) && ($0.lit(a0, n) && $0.lit(b0, n) ==> named(__it2.rest(), n))
//@| decreases __it2.rest().len()
//@ loop 3 invariant $0.lit(a0, a.id()),
//@|    forall|n: int| #![trigger $0.lit(a0, n)] #![trigger named(__it2.rest(), n)] (named(__it2.rest(), n) ==> $0.lit(a0, n)) && ($0.lit(a0, n) && $0.lit(b0, n) ==> n == a.id() || named(__it2.rest(), n)),
//@|    forall|n: int| #![trigger $0.lit(b0, n)] #![trigger named(__it3.rest(), n)] (named(__it3.rest(), n) ==> $0.lit(b0, n)) && ($0.lit(b0, n) && n == a.id() ==> named(__it3.rest(), n))
//@| decreases __it3.rest().len()
//@ spec requires identifies($0)
//@| ensures r == (ca($0, Map::empty(), $1) == cb($0, Map::empty(), $2))
//@ proof named_step(); names_say($0);
//@end
//@fn dataset/isomorphism.rs | | quad_matches
//@ ret r
//@ spec requires identifies($0)
//@| ensures r == (qa($0, Map::empty(), $1) == qb($0, Map::empty(), $2))
//@end
//@fn dataset/isomorphism.rs | | blank_count
//@ ret r
//@ spec ensures r == bc($0, $1)
//@end
impl<'a, 'b, R> BTreeBijection<'a, 'b, R> {
    // (educe: clones each field)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.forward@ == self.forward@, r.backward@ == self.backward@ { unimplemented!() }
}
impl<R> BTreeBijection<'_, '_, R> {
//@fn dataset/isomorphism.rs | impl<R> BTreeBijection<'_, '_, R> | new
//@ ret r
//@ spec ensures r.forward@ == Map::<&R, &R>::empty(), r.backward@ == Map::<&R, &R>::empty()
//@end
}
impl<R> Default for BlankSignature<'_, R> {
    open spec fn is_default(&self) -> bool { self.0@ == Seq::<Quad<&R>>::empty() }
//@fn dataset/isomorphism.rs | impl<R> Default for BlankSignature<'_, R> | default
//@ bare
//@end
}
impl<'a, R> BlankSignature<'a, R> {
//@fn dataset/isomorphism.rs | impl<'a, R> BlankSignature<'a, R> | insert
//@ spec ensures final(self).0@ == old(self).0@.push($1)
//@end
//@fn dataset/isomorphism.rs | impl<'a, R> BlankSignature<'a, R> | len
//@ ret r
//@ spec ensures r == self.0@.len()
//@end
//@fn dataset/isomorphism.rs | impl<'a, R> BlankSignature<'a, R> | matches
//@ ret r
//@ ghost t0 = $2.0@
//@ ghost s0 = self.0@
//@ ghost ga = fa($1, Map::empty())
//@ ghost gb = fb($1, Map::empty())
//@ closure 0 (&Quad<&R>) -> o: Option<Quad<&R>> ensures o == Some(*c0)
//@ loop 0 invariant
//@|    __it0.rest().len() <= s0.len(), forall|k: int| 0 <= k < __it0.rest().len() ==> *(#[trigger] __it0.rest()[k]) == s0[s0.len() - __it0.rest().len() + k],
//@|    greedy(s0, s0.len() - __it0.rest().len(), other@, t0, ga, gb), s0.len() == t0.len(), other@.len() == t0.len()
//@| decreases __it0.rest().len()
//@ into 1 vecmut
//@ loop 1 invariant
//@|    greedy(s0, s0.len() - __it0.rest().len() - 1, other@, t0, ga, gb), *quad == s0[s0.len() - __it0.rest().len() - 1], __it0.rest().len() < s0.len(), other@.len() == t0.len(),
//@|    0 <= __k1 <= other@.len(), forall|k: int| 0 <= k < __k1 && (#[trigger] other@[k]) is Some ==> gb(other@[k]->0) != ga(*quad)
//@| decreases other@.len() - __k1
//@ after 0 greedy_done(s0, other@, t0, ga, gb);
//@ after 1 greedy_stuck(s0, s0.len() - __it0.rest().len() - 1, other@, t0, ga, gb);
//@ proof update_same::<Option<Quad<&R>>>(); greedy_first(s0, t0, ga, gb); greedy_steps(s0, t0, ga, gb); bags_len(s0, t0, ga, gb); assert(bags_eq(s0, t0, ga, gb) == (bag_a($1, Map::empty(), self.0@) == bag_b($1, Map::empty(), $2.0@)));
//@ spec requires identifies($1)
//@| ensures r == (bag_a($1, Map::empty(), self.0@) == bag_b($1, Map::empty(), $2.0@))
//@end
}
// `for sig in map.values_mut() { sig.0.sort_unstable(); }`: each signature is permuted
pub open spec fn resorted<'x, R>(m: Map<&'x R, BlankSignature<'x, R>>, m2: Map<&'x R, BlankSignature<'x, R>>) -> bool {
    m.dom() == m2.dom() && forall|x: &R| #[trigger] m.contains_key(x) ==> m2[x].0@.to_multiset() == m[x].0@.to_multiset()
}
#[verifier::external_body]
pub fn sort_each<'d, R>(map: &mut BTreeMap<&'d R, BlankSignature<'d, R>>) ensures resorted(old(map)@, final(map)@) { unimplemented!() }
//@fn dataset/isomorphism.rs | | collect_signatures
//@ subst `for sig in map.values_mut() { sig.0.sort_unstable(); }` => `sort_each(map);`
//@ loop 0 invariant collected($0, $2.listed(), __it0.rest(), $1@)
//@| decreases __it0.rest().len()
//@ proof collect_starts($0, $2.listed()); collect_steps($0, $2.listed()); collect_ends($0, $2.listed());
//@ after 0 assert(sigs($0, $2.listed(), $1@));
//@ spec requires old($1)@ == Map::<&'d I::Resource, BlankSignature<'d, I::Resource>>::empty()
//@| ensures sigs($0, $2.listed(), final($1)@)
//@end
//@fn dataset/isomorphism.rs | | split_by_size
//@ ret r
//@ loop 0 invariant grouping($0@, __it0.rest(), result@)
//@| decreases __it0.rest().len()
//@ proof grouping_steps($0@); pending_step::<&'d R, BlankSignature<'d, R>>();
//@ after 0 assert(groups($0@, result@));
//@ spec ensures groups($0@, r@)
//@end
impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
//@fn dataset/isomorphism.rs | impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> | insert
//@ spec ensures final(self).forward@ == old(self).forward@.insert($1, $2), final(self).backward@ == old(self).backward@.insert($2, $1)
//@end
//@fn dataset/isomorphism.rs | impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> | resource_matches_with
//@ ret r
//@ subst `Some(&c) => c == b` => `Some(c) => same(*c, b)`
//@ subst `Some(&c) => a == c` => `Some(c) => same(a, *c)`
//@ ghost a0 = $2
//@ ghost b0 = $3
//@ loop 0 invariant forall|n: int| #![trigger $1.iri(a0, n)] #![trigger named(__it0.rest(), n)] (named(__it0.rest(), n) ==> $1.iri(a0, n)) && ($1.iri(a0, n) && $1.iri(b0, n) ==> named(__it0.rest(), n))
//@| decreases __it0.rest().len()
//@ loop 1 invariant $1.iri(a0, a.id()),
//@|    forall|n: int| #![trigger $1.iri(a0, n)] #![trigger named(__it0.rest(), n)] (named(__it0.rest(), n) ==> $1.iri(a0, n)) && ($1.iri(a0, n) && $1.iri(b0, n) ==> n == a.id() || named(__it0.rest(), n)),
//@|    forall|n: int| #![trigger $1.iri(b0, n)] #![trigger named(__it1.rest(), n)] (named(__it1.rest(), n) ==> $1.iri(b0, n)) && ($1.iri(b0, n) && n == a.id() ==> named(__it1.rest(), n))
//@| decreases __it1.rest().len()
//@ loop 2 invariant forall|n: int| #![trigger $1.lit(a0, n)] #![trigger named(__it2.rest(), n)] (named(__it2.rest(), n) ==> $1.lit(a0, n)) && ($1.lit(a0, n) && $1.lit(b0, n) ==> named(__it2.rest(), n))
//@| decreases __it2.rest().len()
//@ loop 3 invariant $1.lit(a0, a.id()),
//@|    forall|n: int| #![trigger $1.lit(a0, n)] #![trigger named(__it2.rest(), n)] (named(__it2.rest(), n) ==> $1.lit(a0, n)) && ($1.lit(a0, n) && $1.lit(b0, n) ==> n == a.id() || named(__it2.rest(), n)),
//@|    forall|n: int| #![trigger $1.lit(b0, n)] #![trigger named(__it3.rest(), n)] (named(__it3.rest(), n) ==> $1.lit(b0, n)) && ($1.lit(b0, n) && n == a.id() ==> named(__it3.rest(), n))
//@| decreases __it3.rest().len()
//@ spec requires identifies($1), wf($1, self.forward@, self.backward@)
//@| ensures r == (ca($1, self.forward@, $2) == cb($1, self.backward@, $3))
//@ proof named_step(); names_say($1);
//@end
//@fn dataset/isomorphism.rs | impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> | quad_matches_with
//@ ret r
//@ spec requires identifies($1), wf($1, self.forward@, self.backward@)
//@| ensures r == (qa($1, self.forward@, $2) == qb($1, self.backward@, $3))
//@end
//@fn dataset/isomorphism.rs | impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> | signature_matches_with
//@ ret r
//@ ghost t0 = $3.0@
//@ ghost s0 = $2.0@
//@ ghost ga = fa($1, self.forward@)
//@ ghost gb = fb($1, self.backward@)
//@ closure 0 (&Quad<&'b R>) -> o: Option<Quad<&'b R>> ensures o == Some(*c0)
//@ loop 0 invariant identifies($1), wf($1, self.forward@, self.backward@), ga == fa($1, self.forward@), gb == fb($1, self.backward@),
//@|    __it0.rest().len() <= s0.len(), forall|k: int| 0 <= k < __it0.rest().len() ==> *(#[trigger] __it0.rest()[k]) == s0[s0.len() - __it0.rest().len() + k],
//@|    greedy(s0, s0.len() - __it0.rest().len(), other@, t0, ga, gb), s0.len() == t0.len(), other@.len() == t0.len()
//@| decreases __it0.rest().len()
//@ into 1 vecmut
//@ loop 1 invariant
//@|    greedy(s0, s0.len() - __it0.rest().len() - 1, other@, t0, ga, gb), *quad == s0[s0.len() - __it0.rest().len() - 1], __it0.rest().len() < s0.len(), other@.len() == t0.len(),
//@|    0 <= __k1 <= other@.len(), forall|k: int| 0 <= k < __k1 && (#[trigger] other@[k]) is Some ==> gb(other@[k]->0) != ga(*quad)
//@| decreases other@.len() - __k1
//@ after 0 greedy_done(s0, other@, t0, ga, gb);
//@ after 1 greedy_stuck(s0, s0.len() - __it0.rest().len() - 1, other@, t0, ga, gb);
//@ proof update_same::<Option<Quad<&'b R>>>(); greedy_first(s0, t0, ga, gb); greedy_steps(s0, t0, ga, gb); bags_len(s0, t0, ga, gb); assert(bags_eq(s0, t0, ga, gb) == (bag_a($1, self.forward@, $2.0@) == bag_b($1, self.backward@, $3.0@)));
//@ spec requires identifies($1), wf($1, self.forward@, self.backward@)
//@| ensures r == (bag_a($1, self.forward@, $2.0@) == bag_b($1, self.backward@, $3.0@))
//@end
//@fn dataset/isomorphism.rs | impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> | find_from_candidates
//@ ret r
//@ subst? `std::collections::btree_map::Iter` => `Iter`
//@ ghost r0 = $2.rest()
//@ loop 0 invariant forall|y: &R| #[trigger] b_candidates@.contains(y) ==> still(__it0.rest(), y) || refuted($1, $3@, $4@, self.forward@, r0.skip(1), *a_blank_id, y),
//@|    forall|y: &R| #[trigger] still(__it0.rest(), y) ==> b_candidates@.contains(y)
//@| decreases __it0.rest().len()
//@ proof still_step::<&'b R>(); pending_step::<&'a R, BTreeSet<&'b R>>();
//@ body 0 search_at($1, $3@, $4@, self.forward@, self.backward@, r0, *b_candidate);
//@ after 0 search_over($1, $3@, $4@, self.forward@, r0);
//@ spec requires identifies($1), wf($1, self.forward@, self.backward@), closed($1, $3@), within(self.forward@, $3@, $4@), sound($1, $3@, $4@, self.forward@), eligible($1, $3@, $4@, self.forward@, $2.rest())
//@| ensures r is Some ==> wf($1, r->0.forward@, r->0.backward@) && within(r->0.forward@, $3@, $4@) && sound($1, $3@, $4@, r->0.forward@) && forall|x: &R| #[trigger] r->0.forward@.contains_key(x) <==> self.forward@.contains_key(x) || pending($2.rest(), x),
//@|    r is None ==> hopeless($1, $3@, $4@, self.forward@, $2.rest())
//@| decreases $2.rest().len()
//@end
}
//@fn dataset/isomorphism.rs | | find_bijection_with
//@ ret r
//@ subst `c + blank_count(interpretation, q)` => `plus(c, blank_count(interpretation, q))`
//@ closure 0 (usize, Quad<&I::Resource>) -> o: usize ensures o == c0 + bc($0, c1)
//@ closure 1 (usize, Quad<&I::Resource>) -> o: usize ensures o == c0 + bc($0, c1)
//@ bind 0 folded($0, __c0);
//@ bind 1 folded($0, __c1);
//@ closure 2 (&Quad<&I::Resource>) -> o: bool ensures o == (bc($0, *c0) == 0)
//@ bind 2 grounded($0, __c2, $1.listed()); grounded($0, __c2, $2.listed());
//@ closure 3 (&Quad<&I::Resource>) -> o: bool ensures o == (qa($0, Map::empty(), quad) == qb($0, Map::empty(), *c0))
//@ closure 4 ((&usize, &BTreeMap<&I::Resource, &BlankSignature<I::Resource>>)) -> o: bool ensures o == b_groups@.contains_key(*c0.0)
//@ loop 0 invariant matching($0, $1.listed(), $2.listed(), __it0.rest(), b_ground@)
//@| decreases __it0.rest().len()
//@ pre 0 match_start($0, $1.listed(), $2.listed(), a_ground@, __it0.rest(), b_ground@);
//@ loop 1 invariant selecting($0, a_blanks_map@, b_blanks_map@, b_groups@, __it1.rest(), 0, Seq::empty(), candidates@)
//@| decreases __it1.rest().len()
//@ pre 1 select_start($0, a_blanks_map@, b_blanks_map@, a_groups@, b_groups@, __it1.rest()); select_facts($0, a_blanks_map@, b_blanks_map@, b_groups@);
//@ loop 2 invariant selecting($0, a_blanks_map@, b_blanks_map@, b_groups@, __it1.rest(), len, __it2.rest(), candidates@)
//@| decreases __it2.rest().len()
//@ loop 3 invariant choosing($0, a_blanks_map@, b_blanks_map@, a_blank_id, __it3.rest(), a_blank_id_candidates@)
//@| decreases __it3.rest().len()
//@ pre 3 choose_start($0, a_blanks_map@, b_blanks_map@, b_groups@, len, a_blank_id, __it3.rest()); choose_facts($0, a_blanks_map@, b_blanks_map@, a_blank_id); nothing_like($0, a_blanks_map@, b_blanks_map@, a_blank_id);
//@ after 1 search_start($0, $1.listed(), $2.listed(), a_blanks_map@, b_blanks_map@, b_groups@, candidates@, __it1.rest()); concludes($0, $1.listed(), $2.listed(), a_blanks_map@, b_blanks_map@);
//@ hide kept iso noiso unlike sigs groups selecting choosing matching likely likes closed sound within wf eligible hopeless bag_a bag_b among pending inverse qa qb bc bsum grounds folds filtered identifies
//@ proof $1.distinct(); $2.distinct(); sums($0, $1.listed()); sums($0, $2.listed()); differ($0, $1.listed(), $2.listed()); match_facts($0, $1.listed(), $2.listed()); not_good($0, $1.listed(), $2.listed());
//@ spec requires identifies($0)
//@| ensures r is Some ==> iso($0, $1.listed(), $2.listed(), r->0.forward@) && inverse(r->0.forward@, r->0.backward@) && forall|y: &I::Resource| #[trigger] r->0.backward@.contains_key(y) <==> among($0, $2.listed(), y),
//@|    r is None ==> noiso($0, $1.listed(), $2.listed())
//@end
//@fn dataset/isomorphism.rs | | are_isomorphic_with
//@ ret r
//@ spec requires identifies($0)
//@| ensures r == !noiso($0, $1.listed(), $2.listed())
//@end
//@fn dataset/isomorphism.rs | | find_bijection
//@ subst `Option<BTreeBijection<'a, 'b>>` => `Option<BTreeBijection<'a, 'b, LocalTerm>>`
//@ ret r
//@ proof terms_identify();
//@ spec ensures r is Some ==> iso(&(), $0.listed(), $1.listed(), r->0.forward@) && inverse(r->0.forward@, r->0.backward@) && forall|y: &LocalTerm| #[trigger] r->0.backward@.contains_key(y) <==> among(&(), $1.listed(), y),
//@|    r is None ==> noiso(&(), $0.listed(), $1.listed())
//@end
//@fn dataset/isomorphism.rs | | are_isomorphic
//@ ret r
//@ proof terms_identify();
//@ spec ensures r == !noiso(&(), $0.listed(), $1.listed())
//@end
