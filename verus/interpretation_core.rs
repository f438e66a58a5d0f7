// (generated by tools/mkinterp.py)
// ---- contracts of interpretations: relations between a term and the resource given for it, in a state
pub trait Interpretation: Sized {
    type Resource;
    spec fn iri_is(&self, i: Seq<char>, r: Option<Self::Resource>) -> bool;
    spec fn lit_is(&self, l: LitV, r: Option<Self::Resource>) -> bool;
    fn iri(&self, iri: &Iri) -> (r: Option<Self::Resource>) ensures self.iri_is(iri@, r);
    fn literal<'a, __I1: Into<LiteralRef<'a>>>(&self, literal: __I1) -> (r: Option<Self::Resource>) ensures exists|y: LiteralRef<'a>| #[trigger] call_ensures(Into::<LiteralRef<'a>>::into, (literal,), y) && self.lit_is(y.v(), r);
//@fn interpretation/mod.rs | trait Interpretation | term
//@  ret r
//@  bare
//@  named
//@  spec ensures exists|y: TermRef<'a>| #[trigger] call_ensures(Into::<TermRef<'a>>::into, ($1,), y) && match y.v() { TermV::Iri(x) => self.iri_is(x, r), TermV::Lit(x) => self.lit_is(x, r) }
//@end
}
pub open spec fn term_is<I: Interpretation>(i: &I, t: TermV, r: Option<I::Resource>) -> bool { match t { TermV::Iri(x) => i.iri_is(x, r), TermV::Lit(x) => i.lit_is(x, r) } }
pub trait InterpretationMut: Interpretation {
    spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: Self::Resource) -> bool;
    spec fn ins_lit(&self, l: LitV, after: &Self, r: Self::Resource) -> bool;
    fn insert_iri<'a, __I1: Into<Cow<'a, Iri>>>(&mut self, iri: __I1) -> (r: Self::Resource) ensures exists|y: Cow<'a, Iri>| #[trigger] call_ensures(Into::<Cow<'a, Iri>>::into, (iri,), y) && old(self).ins_iri(cow_iri(y), final(self), r);
    fn insert_literal<'a, __I1: Into<CowLiteral<'a>>>(&mut self, literal: __I1) -> (r: Self::Resource) ensures exists|y: CowLiteral<'a>| #[trigger] call_ensures(Into::<CowLiteral<'a>>::into, (literal,), y) && old(self).ins_lit(y.v(), final(self), r);
//@fn interpretation/mod.rs | trait InterpretationMut : Interpretation | insert_term
//@  ret r
//@  bare
//@  named
//@  spec ensures exists|y: CowTerm<'a>| #[trigger] call_ensures(Into::<CowTerm<'a>>::into, ($1,), y) && match y.v() { TermV::Iri(x) => old(self).ins_iri(x, final(self), r), TermV::Lit(x) => old(self).ins_lit(x, final(self), r) }
//@end
}
pub open spec fn ins_term<I: InterpretationMut>(i: &I, t: TermV, j: &I, r: I::Resource) -> bool { match t { TermV::Iri(x) => i.ins_iri(x, j, r), TermV::Lit(x) => i.ins_lit(x, j, r) } }
pub trait LocalInterpretation: Interpretation {
    spec fn blank_is(&self, b: Seq<char>, r: Option<Self::Resource>) -> bool;
    fn blank_id(&self, blank_id: &BlankId) -> (r: Option<Self::Resource>) ensures self.blank_is(blank_id@, r);
//@fn interpretation/mod.rs | trait LocalInterpretation : Interpretation | local_term
//@  ret r
//@  bare
//@  named
//@  spec ensures exists|y: LocalTermRef<'a>| #[trigger] call_ensures(Into::<LocalTermRef<'a>>::into, ($1,), y) && match y.v() { LocalV::Anon(x) => self.blank_is(x, r), LocalV::Named(x) => term_is(self, x, r) }
//@end
//@fn interpretation/mod.rs | trait LocalInterpretation : Interpretation | id
//@  ret r
//@  bare
//@  named
//@  spec ensures exists|y: IdRef<'a>| #[trigger] call_ensures(Into::<IdRef<'a>>::into, ($1,), y) && match y.v() { IdV::Blank(x) => self.blank_is(x, r), IdV::Iri(x) => self.iri_is(x, r) }
//@end
}
pub open spec fn local_is<I: LocalInterpretation>(i: &I, t: LocalV, r: Option<I::Resource>) -> bool { match t { LocalV::Anon(x) => i.blank_is(x, r), LocalV::Named(x) => term_is(i, x, r) } }
pub open spec fn id_is<I: LocalInterpretation>(i: &I, t: IdV, r: Option<I::Resource>) -> bool { match t { IdV::Blank(x) => i.blank_is(x, r), IdV::Iri(x) => i.iri_is(x, r) } }
pub trait LocalInterpretationMut: InterpretationMut {
    spec fn ins_blank(&self, b: Seq<char>, after: &Self, r: Self::Resource) -> bool;
    fn insert_blank_id<'a, __I1: Into<Cow<'a, BlankId>>>(&mut self, blank_id: __I1) -> (r: Self::Resource) ensures exists|y: Cow<'a, BlankId>| #[trigger] call_ensures(Into::<Cow<'a, BlankId>>::into, (blank_id,), y) && old(self).ins_blank(cow_blank(y), final(self), r);
//@fn interpretation/mod.rs | trait LocalInterpretationMut : InterpretationMut | insert_local_term
//@  ret r
//@  bare
//@  named
//@  spec ensures exists|y: CowLocalTerm<'a>| #[trigger] call_ensures(Into::<CowLocalTerm<'a>>::into, ($1,), y) && match y.v() { LocalV::Anon(x) => old(self).ins_blank(x, final(self), r), LocalV::Named(x) => ins_term(old(self), x, final(self), r) }
//@end
//@fn interpretation/mod.rs | trait LocalInterpretationMut : InterpretationMut | insert_id
//@  ret r
//@  bare
//@  named
//@  spec ensures exists|y: CowId<'a>| #[trigger] call_ensures(Into::<CowId<'a>>::into, ($1,), y) && match y.v() { IdV::Blank(x) => old(self).ins_blank(x, final(self), r), IdV::Iri(x) => old(self).ins_iri(x, final(self), r) }
//@end
}
pub open spec fn ins_local<I: LocalInterpretationMut>(i: &I, t: LocalV, j: &I, r: I::Resource) -> bool { match t { LocalV::Anon(x) => i.ins_blank(x, j, r), LocalV::Named(x) => ins_term(i, x, j, r) } }
pub open spec fn ins_id<I: LocalInterpretationMut>(i: &I, t: IdV, j: &I, r: I::Resource) -> bool { match t { IdV::Blank(x) => i.ins_blank(x, j, r), IdV::Iri(x) => i.ins_iri(x, j, r) } }
// ---- the terms reported for a resource
pub trait ReverseInterpretation: Interpretation {
    spec fn iris(&self, r: Self::Resource) -> Seq<Seq<char>>;
    spec fn lits(&self, r: Self::Resource) -> Seq<LitV>;
    fn iris_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: AnyIter<Cow<'a, Iri>>) ensures cow_iris(r.rest()) == self.iris(*resource);
    fn literals_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: AnyIter<CowLiteral<'a>>) ensures cow_lits(r.rest()) == self.lits(*resource);
//@fn interpretation/mod.rs | trait ReverseInterpretation : Interpretation | terms_of
//@  ret r
//@  bare
//@  named
//@  spec ensures term_vs(r.rest()) == self.iris(*$1).map_values(|x| TermV::Iri(x)) + self.lits(*$1).map_values(|x| TermV::Lit(x))
//@  subst `TermsOf<'a, Self>` => `TermsOf<'a>`
//@end
//@fn interpretation/mod.rs | trait ReverseInterpretation : Interpretation | is_anonymous
//@  ret r
//@  bare
//@  named
//@  spec ensures r == (self.iris(*$1).len() == 0 && self.lits(*$1).len() == 0)
//@end
}
pub open spec fn terms<I: ReverseInterpretation>(i: &I, r: I::Resource) -> Seq<TermV> { i.iris(r).map_values(|x| TermV::Iri(x)) + i.lits(r).map_values(|x| TermV::Lit(x)) }
//@item interpretation/mod.rs | TermsOf | `<'a, I: 'a + ?Sized + ReverseInterpretation>` => `<'a>` | `I::Iris<'a>` => `AnyIter<Cow<'a, Iri>>` | `I::Literals<'a>` => `AnyIter<CowLiteral<'a>>`
impl<'a> Iterator for TermsOf<'a> {
    type Item = CowTerm<'a>;
    open spec fn rest(&self) -> Seq<CowTerm<'a>> { self.iris.rest().map_values(|x| CowTerm::Iri(x)) + self.literals.rest().map_values(|x| CowTerm::Literal(x)) }
//@fn interpretation/mod.rs | impl<'a, I: 'a + ?Sized + ReverseInterpretation> Iterator for TermsOf<'a, I> | next
//@  ret r
//@  bare
//@  named
//@  proof broadcast use {map_skip, add_skip, add_empty};
//@  eta
//@  inline 0
//@  inline 1
//@  inline 2
//@end
}
pub trait ReverseLocalInterpretation: ReverseInterpretation {
    spec fn blanks(&self, r: Self::Resource) -> Seq<Seq<char>>;
    fn blank_ids_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: AnyIter<Cow<'a, BlankId>>) ensures cow_blanks(r.rest()) == self.blanks(*resource);
//@fn interpretation/mod.rs | trait ReverseLocalInterpretation : ReverseInterpretation | local_terms_of
//@  ret r
//@  bare
//@  named
//@  spec ensures local_vs(r.rest()) == terms(self, *$1).map_values(|x| LocalV::Named(x)) + self.blanks(*$1).map_values(|x| LocalV::Anon(x))
//@  subst `LocalTermsOf<'a, Self>` => `LocalTermsOf<'a>`
//@end
}
pub open spec fn local_terms<I: ReverseLocalInterpretation>(i: &I, r: I::Resource) -> Seq<LocalV> { terms(i, r).map_values(|x| LocalV::Named(x)) + i.blanks(r).map_values(|x| LocalV::Anon(x)) }
//@item interpretation/mod.rs | LocalTermsOf | `<'a, I: 'a + ?Sized + ReverseLocalInterpretation>` => `<'a>` | `TermsOf<'a, I>` => `TermsOf<'a>` | `I::BlankIds<'a>` => `AnyIter<Cow<'a, BlankId>>`
impl<'a> Iterator for LocalTermsOf<'a> {
    type Item = CowLocalTerm<'a>;
    open spec fn rest(&self) -> Seq<CowLocalTerm<'a>> { self.terms.rest().map_values(|x| CowLocalTerm::Named(x)) + self.blank_ids.rest().map_values(|x| CowLocalTerm::Anonymous(x)) }
//@fn interpretation/mod.rs | impl<'a, I: 'a + ?Sized + ReverseLocalInterpretation> Iterator for LocalTermsOf<'a, I> | next
//@  ret r
//@  bare
//@  named
//@  proof broadcast use {map_skip, add_skip, add_empty};
//@  eta
//@  inline 0
//@  inline 1
//@  inline 2
//@end
}
impl Interpretation for () { type Resource = LocalTerm;
    open spec fn iri_is(&self, i: Seq<char>, r: Option<LocalTerm>) -> bool { r matches Some(t) && t.v() == LocalV::Named(TermV::Iri(i)) }
    open spec fn lit_is(&self, l: LitV, r: Option<LocalTerm>) -> bool { r matches Some(t) && t.v() == LocalV::Named(TermV::Lit(l)) }
//@fn interpretation/impl/none.rs | impl Interpretation for () | iri
//@  ret r
//@  bare
//@  named
//@end
//@fn interpretation/impl/none.rs | impl Interpretation for () | literal
//@  ret r
//@  bare
//@  named
//@end
}
impl InterpretationMut for () {
    open spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: LocalTerm) -> bool { r.v() == LocalV::Named(TermV::Iri(i)) && *after == *self }
    open spec fn ins_lit(&self, l: LitV, after: &Self, r: LocalTerm) -> bool { r.v() == LocalV::Named(TermV::Lit(l)) && *after == *self }
//@fn interpretation/impl/none.rs | impl InterpretationMut for () | insert_iri
//@  ret r
//@  bare
//@  named
//@end
//@fn interpretation/impl/none.rs | impl InterpretationMut for () | insert_literal
//@  ret r
//@  bare
//@  named
//@end
}
impl ReverseInterpretation for () {
    open spec fn iris(&self, r: LocalTerm) -> Seq<Seq<char>> { opt_seq(r.v().iri()) }
    open spec fn lits(&self, r: LocalTerm) -> Seq<LitV> { opt_seq(r.v().lit()) }
//@fn interpretation/impl/none.rs | impl ReverseInterpretation for () | iris_of
//@  ret r
//@  bare
//@  named
//@  subst `into_iter` => `into_opt_iter`
//@  subst `Self::Iris<'a>` => `AnyIter<Cow<'a, Iri>>`
//@end
//@fn interpretation/impl/none.rs | impl ReverseInterpretation for () | literals_of
//@  ret r
//@  bare
//@  named
//@  subst `into_iter` => `into_opt_iter`
//@  subst `Self::Literals<'a>` => `AnyIter<CowLiteral<'a>>`
//@end
}
//@item term/generator/interpretation.rs | LocalGeneratorInterpretation | #[verifier::reject_recursive_types(G)]
impl<G> Interpretation for LocalGeneratorInterpretation<G> { type Resource = LocalTerm;
    open spec fn iri_is(&self, i: Seq<char>, r: Option<LocalTerm>) -> bool { r matches Some(t) && t.v() == LocalV::Named(TermV::Iri(i)) }
    open spec fn lit_is(&self, l: LitV, r: Option<LocalTerm>) -> bool { r matches Some(t) && t.v() == LocalV::Named(TermV::Lit(l)) }
//@fn term/generator/interpretation.rs | impl<G> Interpretation for LocalGeneratorInterpretation<G> | iri
//@  ret r
//@  bare
//@  named
//@end
//@fn term/generator/interpretation.rs | impl<G> Interpretation for LocalGeneratorInterpretation<G> | literal
//@  ret r
//@  bare
//@  named
//@end
}
impl<G> InterpretationMut for LocalGeneratorInterpretation<G> {
    open spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: LocalTerm) -> bool { r.v() == LocalV::Named(TermV::Iri(i)) && *after == *self }
    open spec fn ins_lit(&self, l: LitV, after: &Self, r: LocalTerm) -> bool { r.v() == LocalV::Named(TermV::Lit(l)) && *after == *self }
//@fn term/generator/interpretation.rs | impl<G> InterpretationMut for LocalGeneratorInterpretation<G> | insert_iri
//@  ret r
//@  bare
//@  named
//@end
//@fn term/generator/interpretation.rs | impl<G> InterpretationMut for LocalGeneratorInterpretation<G> | insert_literal
//@  ret r
//@  bare
//@  named
//@end
}
impl<G> ReverseInterpretation for LocalGeneratorInterpretation<G> {
    open spec fn iris(&self, r: LocalTerm) -> Seq<Seq<char>> { opt_seq(r.v().iri()) }
    open spec fn lits(&self, r: LocalTerm) -> Seq<LitV> { opt_seq(r.v().lit()) }
//@fn term/generator/interpretation.rs | impl<G> ReverseInterpretation for LocalGeneratorInterpretation<G> | iris_of
//@  ret r
//@  bare
//@  named
//@  eta
//@  inline 0
//@  subst `into_iter` => `into_opt_iter`
//@  subst `Self::Iris<'a>` => `AnyIter<Cow<'a, Iri>>`
//@end
//@fn term/generator/interpretation.rs | impl<G> ReverseInterpretation for LocalGeneratorInterpretation<G> | literals_of
//@  ret r
//@  bare
//@  named
//@  eta
//@  inline 0
//@  subst `into_iter` => `into_opt_iter`
//@  subst `Self::Literals<'a>` => `AnyIter<CowLiteral<'a>>`
//@end
}
impl<G> LocalInterpretation for LocalGeneratorInterpretation<G> {
    open spec fn blank_is(&self, b: Seq<char>, r: Option<LocalTerm>) -> bool { r matches Some(t) && t.v() == LocalV::Anon(b) }
//@fn term/generator/interpretation.rs | impl<G> LocalInterpretation for LocalGeneratorInterpretation<G> | blank_id
//@  ret r
//@  bare
//@  named
//@end
}
impl<G> ReverseLocalInterpretation for LocalGeneratorInterpretation<G> {
    open spec fn blanks(&self, r: LocalTerm) -> Seq<Seq<char>> { opt_seq(r.v().blank()) }
//@fn term/generator/interpretation.rs | impl<G> ReverseLocalInterpretation for LocalGeneratorInterpretation<G> | blank_ids_of
//@  ret r
//@  bare
//@  named
//@  eta
//@  inline 0
//@  subst `into_iter` => `into_opt_iter`
//@  subst `Self::BlankIds<'a>` => `AnyIter<Cow<'a, BlankId>>`
//@end
}
pub broadcast proof fn into_cow_term(t: Term, y: CowTerm<'_>) requires #[trigger] call_ensures(Into::<CowTerm<'_>>::into, (t,), y) ensures y.v() == t.v() { assert(call_ensures(<CowTerm<'_> as From<Term>>::from, (t,), y)); }
pub broadcast proof fn into_cow_local_term(t: LocalTerm, y: CowLocalTerm<'_>) requires #[trigger] call_ensures(Into::<CowLocalTerm<'_>>::into, (t,), y) ensures y.v() == t.v() { assert(call_ensures(<CowLocalTerm<'_> as From<LocalTerm>>::from, (t,), y)); }
// ---- generators: the next term, and the generator after it
pub trait Generator {
    spec fn gives(&self, after: &Self, t: Term) -> bool;
    fn next_term(&mut self) -> (r: Term) ensures old(self).gives(final(self), r);
}
pub trait LocalGenerator {
    spec fn gives_local(&self, after: &Self, t: LocalTerm) -> bool;
    fn next_local_term(&mut self) -> (r: LocalTerm) ensures old(self).gives_local(final(self), r);
}
impl<T> RefCell<T> {
    #[verifier::external_body]
    pub fn borrow_mut(&self) -> RefMut<T> { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefMut<T> { t: Vec<T> }
impl<G: LocalGenerator> RefMut<G> {
    #[verifier::external_body]
    pub fn next_local_term(&mut self) -> (r: LocalTerm) ensures exists|a: G, b: G| a.gives_local(&b, r) { unimplemented!() }
}
pub trait GenerativeInterpretation: Interpretation {
    spec fn creates(&self, after: &Self, r: Self::Resource) -> bool;
    fn new_resource(&mut self) -> (r: Self::Resource) ensures old(self).creates(final(self), r);
}
pub trait ConstGenerativeInterpretation: Interpretation {
    spec fn fresh(&self, r: Self::Resource) -> bool;
    fn new_resource(&self) -> (r: Self::Resource) ensures self.fresh(r);
}
impl<I: ConstGenerativeInterpretation> GenerativeInterpretation for I {
    open spec fn creates(&self, after: &Self, r: I::Resource) -> bool { self.fresh(r) && *after == *self }
//@fn interpretation/mod.rs | impl<I: ConstGenerativeInterpretation> GenerativeInterpretation for I | new_resource
//@  ret r
//@  bare
//@  named
//@end
}
// a new resource is a term the generator gives, in some state of it (the state is behind a RefCell)
impl<G: LocalGenerator> ConstGenerativeInterpretation for LocalGeneratorInterpretation<G> {
    open spec fn fresh(&self, r: LocalTerm) -> bool { exists|a: G, b: G| a.gives_local(&b, r) }
//@fn term/generator/interpretation.rs | impl<G: LocalGenerator> ConstGenerativeInterpretation for LocalGeneratorInterpretation<G> | new_resource
//@  ret r
//@  bare
//@  named
//@end
}
// what the RefCell holds, when it is read as a plain cell (one thread, no borrow outstanding: &self becomes &mut self):
// each new resource is the generator's next term, and the generator moves on by it
impl<T> RefCell<T> {
    pub uninterp spec fn held(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: RefCell<T>) ensures r.held() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: T) ensures r == self.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn held_mut(&mut self) -> (r: &mut T) ensures *r == old(self).held(), *final(r) == final(self).held() { unimplemented!() }
}
impl<G> LocalGeneratorInterpretation<G> {
//@fn term/generator/interpretation.rs | impl<G> LocalGeneratorInterpretation<G> | new
//@  ret r
//@  spec ensures r.0.held() == $0
//@end
//@fn term/generator/interpretation.rs | impl<G> LocalGeneratorInterpretation<G> | into_generator
//@  ret r
//@  spec ensures r == self.0.held()
//@end
}
impl<G: LocalGenerator> LocalGeneratorInterpretation<G> {
//@fn term/generator/interpretation.rs | impl<G: LocalGenerator> ConstGenerativeInterpretation for LocalGeneratorInterpretation<G> | new_resource
//@  as new_resource_state
//@  ret r
//@  subst `&self` => `&mut self`
//@  subst `Self::Resource` => `LocalTerm`
//@  subst `borrow_mut` => `held_mut`
//@  spec ensures old(self).0.held().gives_local(&final(self).0.held(), r)
//@end
}
// a generator borrowed mutably is that generator
pub struct LentGenerator<'g, G>(pub &'g mut G);
impl<'g, G: Generator> LentGenerator<'g, G> {
//@fn term/generator/mod.rs | impl<G: Generator> Generator for &mut G | next_term
//@  as next_term_lent
//@  ret r
//@  subst `&mut self` => `__g: &mut G`
//@  subst `self` => `__g`
//@  spec ensures old(__g).gives(final(__g), r)
//@end
}
// a generator borrowed mutably is that generator
pub struct LentLocalGenerator<'g, G>(pub &'g mut G);
impl<'g, G: LocalGenerator> LentLocalGenerator<'g, G> {
//@fn term/generator/mod.rs | impl<G: LocalGenerator> LocalGenerator for &mut G | next_local_term
//@  as next_local_term_lent
//@  ret r
//@  subst `&mut self` => `__g: &mut G`
//@  subst `self` => `__g`
//@  spec ensures old(__g).gives_local(final(__g), r)
//@end
}
// ---- error-capable variants, for any interpretation: the same answers, never an error
#[verifier::external_body]
pub struct Infallible { v: std::convert::Infallible }
pub trait FallibleInterpretation: Sized { type Resource; type Error; }
impl<I: Interpretation> FallibleInterpretation for I { type Resource = <I as Interpretation>::Resource; type Error = Infallible; }
pub trait FallibleGenerativeInterpretation: FallibleInterpretation {
    spec fn creates_ok(&self, after: &Self, r: Result<Self::Resource, Self::Error>) -> bool;
    fn try_new_resource(&mut self) -> (r: Result<Self::Resource, Self::Error>) ensures old(self).creates_ok(final(self), r);
}
impl<I: GenerativeInterpretation> FallibleGenerativeInterpretation for I {
    open spec fn creates_ok(&self, after: &Self, r: Result<<I as Interpretation>::Resource, Infallible>) -> bool { r is Ok && self.creates(after, r->Ok_0) }
//@fn interpretation/fallible.rs | impl<I: GenerativeInterpretation> FallibleGenerativeInterpretation for I | try_new_resource
//@  ret r
//@  bare
//@  subst `Self::Resource` => `<I as Interpretation>::Resource`
//@  subst `Self::Error` => `Infallible`
//@end
}
//@item utils.rs | InfallibleIterator
impl<I: Iterator> Iterator for InfallibleIterator<I> {
    type Item = Result<I::Item, Infallible>;
    open spec fn rest(&self) -> Seq<Self::Item> { self.0.rest().map_values(|x: I::Item| Ok::<I::Item, Infallible>(x)) }
//@fn utils.rs | impl<I: Iterator> Iterator for InfallibleIterator<I> | next
//@ bare
//@ eta
//@ inline *
//@ ret r
//@ proof if self.0.rest().len() > 0 { assert(self.0.rest().skip(1).map_values(|x: I::Item| Ok::<I::Item, Infallible>(x)) =~= self.rest().skip(1)); }
//@end
}
pub trait TraversableInterpretation: Interpretation {
    spec fn listed(&self) -> Seq<Self::Resource>;
    fn resources<'x>(&'x self) -> (r: AnyIter<&'x Self::Resource>) ensures behind(r.rest()) == self.listed();
}
pub open spec fn behind<'x, T>(s: Seq<&'x T>) -> Seq<T> { s.map_values(|x: &'x T| *x) }
pub struct TryTraversal<'x, I>(pub &'x I);
impl<'x, I: TraversableInterpretation> TryTraversal<'x, I> {
//@fn interpretation/fallible.rs | impl<I: super::TraversableInterpretation> TraversableFallibleInterpretation for I | try_resources
//@  ret r
//@  subst `&self` => `this: &'x I`
//@  subst `self` => `this`
//@  subst `Self::Resources<'_>` => `InfallibleIterator<AnyIter<&'x I::Resource>>`
//@  spec ensures r.rest().len() == this.listed().len(), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] is Ok && *r.rest()[i]->Ok_0 == this.listed()[i]
//@  proof assert forall|t: AnyIter<&'x I::Resource>| #[trigger] behind(t.rest()) == this.listed() implies t.rest().len() == this.listed().len() && forall|i: int| 0 <= i < t.rest().len() ==> *(#[trigger] t.rest()[i]) == this.listed()[i] by { let m = behind(t.rest()); assert(m.len() == t.rest().len()); assert forall|i: int| 0 <= i < t.rest().len() implies *(#[trigger] t.rest()[i]) == this.listed()[i] by { assert(m[i] == *t.rest()[i]); } }
//@end
}
//@item interpretation/impl/with_generator.rs | WithGenerator | `= ()` => ``
impl<G, I> WithGenerator<G, I> {
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | new
//@  ret r
//@  spec ensures r.interpretation == $0, r.generator == $1
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | into_parts
//@  ret r
//@  spec ensures r == (self.interpretation, self.generator)
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | inner_interpretation
//@  ret r
//@  spec ensures *r == self.interpretation
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | inner_interpretation_mut
//@  ret r
//@  spec ensures *r == old(self).interpretation, final(self).interpretation == *final(r), final(self).generator == old(self).generator
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | generator
//@  ret r
//@  spec ensures *r == self.generator
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | generator_mut
//@  ret r
//@  spec ensures *r == old(self).generator, final(self).generator == *final(r), final(self).interpretation == old(self).interpretation
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | into_inner_interpretation
//@  ret r
//@  spec ensures r == self.interpretation
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithGenerator<G, I> | into_generator
//@  ret r
//@  spec ensures r == self.generator
//@end
}
impl<I: Interpretation, G> Interpretation for WithGenerator<G, I> {
    type Resource = I::Resource;
    open spec fn iri_is(&self, i: Seq<char>, r: Option<I::Resource>) -> bool { self.interpretation.iri_is(i, r) }
    open spec fn lit_is(&self, l: LitV, r: Option<I::Resource>) -> bool { self.interpretation.lit_is(l, r) }
//@fn interpretation/impl/with_generator.rs | impl<I: Interpretation, G> Interpretation for WithGenerator<G, I> | iri
//@  ret r
//@  bare
//@  named
//@end
//@fn interpretation/impl/with_generator.rs | impl<I: Interpretation, G> Interpretation for WithGenerator<G, I> | literal
//@  ret r
//@  bare
//@  named
//@end
}
impl<I: InterpretationMut, G> InterpretationMut for WithGenerator<G, I> {
    open spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: I::Resource) -> bool { self.interpretation.ins_iri(i, &after.interpretation, r) && after.generator == self.generator }
    open spec fn ins_lit(&self, l: LitV, after: &Self, r: I::Resource) -> bool { self.interpretation.ins_lit(l, &after.interpretation, r) && after.generator == self.generator }
//@fn interpretation/impl/with_generator.rs | impl<I: InterpretationMut, G> InterpretationMut for WithGenerator<G, I> | insert_iri
//@  ret r
//@  bare
//@  named
//@end
//@fn interpretation/impl/with_generator.rs | impl<I: InterpretationMut, G> InterpretationMut for WithGenerator<G, I> | insert_literal
//@  ret r
//@  bare
//@  named
//@end
}
impl<I: ReverseInterpretation, G> ReverseInterpretation for WithGenerator<G, I> {
    open spec fn iris(&self, r: I::Resource) -> Seq<Seq<char>> { self.interpretation.iris(r) }
    open spec fn lits(&self, r: I::Resource) -> Seq<LitV> { self.interpretation.lits(r) }
//@fn interpretation/impl/with_generator.rs | impl<I: ReverseInterpretation, G> ReverseInterpretation for WithGenerator<G, I> | iris_of
//@  ret r
//@  bare
//@  named
//@  subst `Self::Iris<'a>` => `AnyIter<Cow<'a, Iri>>`
//@end
//@fn interpretation/impl/with_generator.rs | impl<I: ReverseInterpretation, G> ReverseInterpretation for WithGenerator<G, I> | literals_of
//@  ret r
//@  bare
//@  named
//@  subst `Self::Literals<'a>` => `AnyIter<CowLiteral<'a>>`
//@end
}
impl<I: InterpretationMut, G: Generator> GenerativeInterpretation for WithGenerator<G, I> {
    open spec fn creates(&self, after: &Self, r: I::Resource) -> bool { exists|t: Term| #![trigger t.v()] self.generator.gives(&after.generator, t) && ins_term(&self.interpretation, t.v(), &after.interpretation, r) }
//@fn interpretation/impl/with_generator.rs | impl<I: InterpretationMut, G: Generator> GenerativeInterpretation for WithGenerator<G, I> | new_resource
//@  ret r
//@  bare
//@  named
//@  proof broadcast use {into_cow_term, into_cow_local_term};
//@end
}
//@item interpretation/impl/with_generator.rs | WithLocalGenerator | `= ()` => ``
impl<G, I> WithLocalGenerator<G, I> {
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | new
//@  ret r
//@  spec ensures r.interpretation == $0, r.generator == $1
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | into_parts
//@  ret r
//@  spec ensures r == (self.interpretation, self.generator)
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | inner_interpretation
//@  ret r
//@  spec ensures *r == self.interpretation
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | inner_interpretation_mut
//@  ret r
//@  spec ensures *r == old(self).interpretation, final(self).interpretation == *final(r), final(self).generator == old(self).generator
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | generator
//@  ret r
//@  spec ensures *r == self.generator
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | generator_mut
//@  ret r
//@  spec ensures *r == old(self).generator, final(self).generator == *final(r), final(self).interpretation == old(self).interpretation
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | into_inner_interpretation
//@  ret r
//@  spec ensures r == self.interpretation
//@end
//@fn interpretation/impl/with_generator.rs | impl<G, I> WithLocalGenerator<G, I> | into_generator
//@  ret r
//@  spec ensures r == self.generator
//@end
}
impl<I: Interpretation, G> Interpretation for WithLocalGenerator<G, I> {
    type Resource = I::Resource;
    open spec fn iri_is(&self, i: Seq<char>, r: Option<I::Resource>) -> bool { self.interpretation.iri_is(i, r) }
    open spec fn lit_is(&self, l: LitV, r: Option<I::Resource>) -> bool { self.interpretation.lit_is(l, r) }
//@fn interpretation/impl/with_generator.rs | impl<I: Interpretation, G> Interpretation for WithLocalGenerator<G, I> | iri
//@  ret r
//@  bare
//@  named
//@end
//@fn interpretation/impl/with_generator.rs | impl<I: Interpretation, G> Interpretation for WithLocalGenerator<G, I> | literal
//@  ret r
//@  bare
//@  named
//@end
}
impl<I: InterpretationMut, G> InterpretationMut for WithLocalGenerator<G, I> {
    open spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: I::Resource) -> bool { self.interpretation.ins_iri(i, &after.interpretation, r) && after.generator == self.generator }
    open spec fn ins_lit(&self, l: LitV, after: &Self, r: I::Resource) -> bool { self.interpretation.ins_lit(l, &after.interpretation, r) && after.generator == self.generator }
//@fn interpretation/impl/with_generator.rs | impl<I: InterpretationMut, G> InterpretationMut for WithLocalGenerator<G, I> | insert_iri
//@  ret r
//@  bare
//@  named
//@end
//@fn interpretation/impl/with_generator.rs | impl<I: InterpretationMut, G> InterpretationMut for WithLocalGenerator<G, I> | insert_literal
//@  ret r
//@  bare
//@  named
//@end
}
impl<I: ReverseInterpretation, G> ReverseInterpretation for WithLocalGenerator<G, I> {
    open spec fn iris(&self, r: I::Resource) -> Seq<Seq<char>> { self.interpretation.iris(r) }
    open spec fn lits(&self, r: I::Resource) -> Seq<LitV> { self.interpretation.lits(r) }
//@fn interpretation/impl/with_generator.rs | impl<I: ReverseInterpretation, G> ReverseInterpretation for WithLocalGenerator<G, I> | iris_of
//@  ret r
//@  bare
//@  named
//@  subst `Self::Iris<'a>` => `AnyIter<Cow<'a, Iri>>`
//@end
//@fn interpretation/impl/with_generator.rs | impl<I: ReverseInterpretation, G> ReverseInterpretation for WithLocalGenerator<G, I> | literals_of
//@  ret r
//@  bare
//@  named
//@  subst `Self::Literals<'a>` => `AnyIter<CowLiteral<'a>>`
//@end
}
impl<I: LocalInterpretation, G> LocalInterpretation for WithLocalGenerator<G, I> {
    open spec fn blank_is(&self, b: Seq<char>, r: Option<I::Resource>) -> bool { self.interpretation.blank_is(b, r) }
//@fn interpretation/impl/with_generator.rs | impl<I: LocalInterpretation, G> LocalInterpretation for WithLocalGenerator<G, I> | blank_id
//@  ret r
//@  bare
//@  named
//@  subst? `<'a>` => ``
//@  subst? `&'a` => `&`
//@end
}
impl<I: LocalInterpretationMut, G> LocalInterpretationMut for WithLocalGenerator<G, I> {
    open spec fn ins_blank(&self, b: Seq<char>, after: &Self, r: I::Resource) -> bool { self.interpretation.ins_blank(b, &after.interpretation, r) && after.generator == self.generator }
//@fn interpretation/impl/with_generator.rs | impl<I: LocalInterpretationMut, G> LocalInterpretationMut for WithLocalGenerator<G, I> | insert_blank_id
//@  ret r
//@  bare
//@  named
//@end
}
impl<I: ReverseLocalInterpretation, G> ReverseLocalInterpretation for WithLocalGenerator<G, I> {
    open spec fn blanks(&self, r: I::Resource) -> Seq<Seq<char>> { self.interpretation.blanks(r) }
//@fn interpretation/impl/with_generator.rs | impl<I: ReverseLocalInterpretation, G> ReverseLocalInterpretation for WithLocalGenerator<G, I> | blank_ids_of
//@  ret r
//@  bare
//@  named
//@  subst `Self::BlankIds<'a>` => `AnyIter<Cow<'a, BlankId>>`
//@end
}
impl<I: LocalInterpretationMut, G: LocalGenerator> GenerativeInterpretation for WithLocalGenerator<G, I> {
    open spec fn creates(&self, after: &Self, r: I::Resource) -> bool { exists|t: LocalTerm| #![trigger t.v()] self.generator.gives_local(&after.generator, t) && ins_local(&self.interpretation, t.v(), &after.interpretation, r) }
//@fn interpretation/impl/with_generator.rs | impl<I: LocalInterpretationMut, G: LocalGenerator> GenerativeInterpretation for WithLocalGenerator<G, I> | new_resource
//@  ret r
//@  bare
//@  named
//@  proof broadcast use {into_cow_term, into_cow_local_term};
//@end
}
// ---- the property, over these contracts: what was interpreted is what is reported
pub open spec fn transparent<I: ReverseInterpretation<Resource = LocalTerm>>(i: &I) -> bool {
    &&& forall|t: LocalTerm, x: Seq<char>| #[trigger] i.iri_is(x, Some(t)) ==> i.iris(t) == seq![x] && i.lits(t).len() == 0
    &&& forall|t: LocalTerm, x: LitV| #[trigger] i.lit_is(x, Some(t)) ==> i.lits(t) == seq![x] && i.iris(t).len() == 0
}
pub proof fn unit_transparent() ensures transparent(&()) { }
pub proof fn generator_transparent<G>(i: &LocalGeneratorInterpretation<G>) ensures transparent(i),
    forall|t: LocalTerm, x: Seq<char>| #[trigger] i.blank_is(x, Some(t)) ==> i.blanks(t) == seq![x] && terms(i, t) == Seq::<TermV>::empty() { 
    assert forall|t: LocalTerm, x: Seq<char>| #[trigger] i.blank_is(x, Some(t)) implies i.blanks(t) == seq![x] && terms(i, t) == Seq::<TermV>::empty() by { assert(terms(i, t) =~= Seq::<TermV>::empty()); } }
pub proof fn inserted_transparent(x: Seq<char>, l: LitV, t: LocalTerm, u: ()) ensures ().ins_iri(x, &u, t) ==> ().iri_is(x, Some(t)), ().ins_lit(l, &u, t) ==> ().lit_is(l, Some(t)) { }

