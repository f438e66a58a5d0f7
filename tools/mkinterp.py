#!/usr/bin/env python3
"""Writes verus/interpretation_core.rs: traits of interpretations, with their default methods, and the implementations."""
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
def w(*a): o.extend(a)
M, N, W, L = "interpretation/mod.rs", "interpretation/impl/none.rs", "interpretation/impl/with_generator.rs", "term/generator/interpretation.rs"
SUPER = {"InterpretationMut": "Interpretation", "LocalInterpretation": "Interpretation", "LocalInterpretationMut": "InterpretationMut",
         "ReverseInterpretation": "Interpretation", "ReverseLocalInterpretation": "ReverseInterpretation"}
GAT = {"iris_of": "subst `Self::Iris<'a>` => `AnyIter<Cow<'a, Iri>>`", "literals_of": "subst `Self::Literals<'a>` => `AnyIter<CowLiteral<'a>>`", "blank_ids_of": "subst `Self::BlankIds<'a>` => `AnyIter<Cow<'a, BlankId>>`"}
def fn(file, owner, name, spec, *extra):
    if name in GAT: extra = extra + (GAT[name],)
    if owner.startswith("trait ") and owner[6:] in SUPER: owner += " : " + SUPER[owner[6:]]
    w("//@fn %s | %s | %s" % (file, owner, name), "//@  ret r")
    if "pub" not in extra: w("//@  bare", "//@  named")
    if spec: w("//@  spec ensures " + spec.replace("\n", "\n//@|   "))
    for e in extra:
        if e != "pub": w("//@  " + e)
    w("//@end")
# X converts to y through Into, with the property P(y)
def conv(n, ty, prop): return "exists|y: %s| #[trigger] call_ensures(Into::<%s>::into, (%s,), y) && %s" % (ty, ty, n, prop)
w("""// (generated by tools/mkinterp.py)
// ---- contracts of interpretations: relations between a term and the resource given for it, in a state
pub trait Interpretation: Sized {
    type Resource;
    spec fn iri_is(&self, i: Seq<char>, r: Option<Self::Resource>) -> bool;
    spec fn lit_is(&self, l: LitV, r: Option<Self::Resource>) -> bool;
    fn iri(&self, iri: &Iri) -> (r: Option<Self::Resource>) ensures self.iri_is(iri@, r);
    fn literal<'a, __I1: Into<LiteralRef<'a>>>(&self, literal: __I1) -> (r: Option<Self::Resource>) ensures %s;""" % conv("literal", "LiteralRef<'a>", "self.lit_is(y.v(), r)"))
fn(M, "trait Interpretation", "term", conv("$1", "TermRef<'a>", "match y.v() { TermV::Iri(x) => self.iri_is(x, r), TermV::Lit(x) => self.lit_is(x, r) }"))
w("""}
pub open spec fn term_is<I: Interpretation>(i: &I, t: TermV, r: Option<I::Resource>) -> bool { match t { TermV::Iri(x) => i.iri_is(x, r), TermV::Lit(x) => i.lit_is(x, r) } }
pub trait InterpretationMut: Interpretation {
    spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: Self::Resource) -> bool;
    spec fn ins_lit(&self, l: LitV, after: &Self, r: Self::Resource) -> bool;
    fn insert_iri<'a, __I1: Into<Cow<'a, Iri>>>(&mut self, iri: __I1) -> (r: Self::Resource) ensures %s;
    fn insert_literal<'a, __I1: Into<CowLiteral<'a>>>(&mut self, literal: __I1) -> (r: Self::Resource) ensures %s;""" %
  (conv("iri", "Cow<'a, Iri>", "old(self).ins_iri(cow_iri(y), final(self), r)"), conv("literal", "CowLiteral<'a>", "old(self).ins_lit(y.v(), final(self), r)")))
fn(M, "trait InterpretationMut", "insert_term", conv("$1", "CowTerm<'a>", "match y.v() { TermV::Iri(x) => old(self).ins_iri(x, final(self), r), TermV::Lit(x) => old(self).ins_lit(x, final(self), r) }"))
w("""}
pub open spec fn ins_term<I: InterpretationMut>(i: &I, t: TermV, j: &I, r: I::Resource) -> bool { match t { TermV::Iri(x) => i.ins_iri(x, j, r), TermV::Lit(x) => i.ins_lit(x, j, r) } }
pub trait LocalInterpretation: Interpretation {
    spec fn blank_is(&self, b: Seq<char>, r: Option<Self::Resource>) -> bool;
    fn blank_id(&self, blank_id: &BlankId) -> (r: Option<Self::Resource>) ensures self.blank_is(blank_id@, r);""")
fn(M, "trait LocalInterpretation", "local_term", conv("$1", "LocalTermRef<'a>", "match y.v() { LocalV::Anon(x) => self.blank_is(x, r), LocalV::Named(x) => term_is(self, x, r) }"))
fn(M, "trait LocalInterpretation", "id", conv("$1", "IdRef<'a>", "match y.v() { IdV::Blank(x) => self.blank_is(x, r), IdV::Iri(x) => self.iri_is(x, r) }"))
w("""}
pub open spec fn local_is<I: LocalInterpretation>(i: &I, t: LocalV, r: Option<I::Resource>) -> bool { match t { LocalV::Anon(x) => i.blank_is(x, r), LocalV::Named(x) => term_is(i, x, r) } }
pub open spec fn id_is<I: LocalInterpretation>(i: &I, t: IdV, r: Option<I::Resource>) -> bool { match t { IdV::Blank(x) => i.blank_is(x, r), IdV::Iri(x) => i.iri_is(x, r) } }
pub trait LocalInterpretationMut: InterpretationMut {
    spec fn ins_blank(&self, b: Seq<char>, after: &Self, r: Self::Resource) -> bool;
    fn insert_blank_id<'a, __I1: Into<Cow<'a, BlankId>>>(&mut self, blank_id: __I1) -> (r: Self::Resource) ensures %s;""" % conv("blank_id", "Cow<'a, BlankId>", "old(self).ins_blank(cow_blank(y), final(self), r)"))
fn(M, "trait LocalInterpretationMut", "insert_local_term", conv("$1", "CowLocalTerm<'a>", "match y.v() { LocalV::Anon(x) => old(self).ins_blank(x, final(self), r), LocalV::Named(x) => ins_term(old(self), x, final(self), r) }"))
fn(M, "trait LocalInterpretationMut", "insert_id", conv("$1", "CowId<'a>", "match y.v() { IdV::Blank(x) => old(self).ins_blank(x, final(self), r), IdV::Iri(x) => old(self).ins_iri(x, final(self), r) }"))
w("""}
pub open spec fn ins_local<I: LocalInterpretationMut>(i: &I, t: LocalV, j: &I, r: I::Resource) -> bool { match t { LocalV::Anon(x) => i.ins_blank(x, j, r), LocalV::Named(x) => ins_term(i, x, j, r) } }
pub open spec fn ins_id<I: LocalInterpretationMut>(i: &I, t: IdV, j: &I, r: I::Resource) -> bool { match t { IdV::Blank(x) => i.ins_blank(x, j, r), IdV::Iri(x) => i.ins_iri(x, j, r) } }
// ---- the terms reported for a resource
pub trait ReverseInterpretation: Interpretation {
    spec fn iris(&self, r: Self::Resource) -> Seq<Seq<char>>;
    spec fn lits(&self, r: Self::Resource) -> Seq<LitV>;
    fn iris_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: AnyIter<Cow<'a, Iri>>) ensures cow_iris(r.rest()) == self.iris(*resource);
    fn literals_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: AnyIter<CowLiteral<'a>>) ensures cow_lits(r.rest()) == self.lits(*resource);""")
fn(M, "trait ReverseInterpretation", "terms_of", "term_vs(r.rest()) == self.iris(*$1).map_values(|x| TermV::Iri(x)) + self.lits(*$1).map_values(|x| TermV::Lit(x))", "subst `TermsOf<'a, Self>` => `TermsOf<'a>`")
fn(M, "trait ReverseInterpretation", "is_anonymous", "r == (self.iris(*$1).len() == 0 && self.lits(*$1).len() == 0)")
w("""}
pub open spec fn terms<I: ReverseInterpretation>(i: &I, r: I::Resource) -> Seq<TermV> { i.iris(r).map_values(|x| TermV::Iri(x)) + i.lits(r).map_values(|x| TermV::Lit(x)) }
//@item interpretation/mod.rs | TermsOf | `<'a, I: 'a + ?Sized + ReverseInterpretation>` => `<'a>` | `I::Iris<'a>` => `AnyIter<Cow<'a, Iri>>` | `I::Literals<'a>` => `AnyIter<CowLiteral<'a>>`
impl<'a> Iterator for TermsOf<'a> {
    type Item = CowTerm<'a>;
    open spec fn rest(&self) -> Seq<CowTerm<'a>> { self.iris.rest().map_values(|x| CowTerm::Iri(x)) + self.literals.rest().map_values(|x| CowTerm::Literal(x)) }""")
fn(M, "impl<'a, I: 'a + ?Sized + ReverseInterpretation> Iterator for TermsOf<'a, I>", "next", "", "proof broadcast use {map_skip, add_skip, add_empty};", "eta", "inline 0", "inline 1", "inline 2")
w("}",
"""pub trait ReverseLocalInterpretation: ReverseInterpretation {
    spec fn blanks(&self, r: Self::Resource) -> Seq<Seq<char>>;
    fn blank_ids_of<'a>(&'a self, resource: &'a Self::Resource) -> (r: AnyIter<Cow<'a, BlankId>>) ensures cow_blanks(r.rest()) == self.blanks(*resource);""")
fn(M, "trait ReverseLocalInterpretation", "local_terms_of", "local_vs(r.rest()) == terms(self, *$1).map_values(|x| LocalV::Named(x)) + self.blanks(*$1).map_values(|x| LocalV::Anon(x))", "subst `LocalTermsOf<'a, Self>` => `LocalTermsOf<'a>`")
w("""}
pub open spec fn local_terms<I: ReverseLocalInterpretation>(i: &I, r: I::Resource) -> Seq<LocalV> { terms(i, r).map_values(|x| LocalV::Named(x)) + i.blanks(r).map_values(|x| LocalV::Anon(x)) }
//@item interpretation/mod.rs | LocalTermsOf | `<'a, I: 'a + ?Sized + ReverseLocalInterpretation>` => `<'a>` | `TermsOf<'a, I>` => `TermsOf<'a>` | `I::BlankIds<'a>` => `AnyIter<Cow<'a, BlankId>>`
impl<'a> Iterator for LocalTermsOf<'a> {
    type Item = CowLocalTerm<'a>;
    open spec fn rest(&self) -> Seq<CowLocalTerm<'a>> { self.terms.rest().map_values(|x| CowLocalTerm::Named(x)) + self.blank_ids.rest().map_values(|x| CowLocalTerm::Anonymous(x)) }""")
fn(M, "impl<'a, I: 'a + ?Sized + ReverseLocalInterpretation> Iterator for LocalTermsOf<'a, I>", "next", "", "proof broadcast use {map_skip, add_skip, add_empty};", "eta", "inline 0", "inline 1", "inline 2")
w("}")
# ---- the transparent interpretation, and the one made from a generator
def transparent(ty, gen, f):
    head = "impl%s" % gen
    iri = "r matches Some(t) && t.v() == LocalV::Named(TermV::Iri(i))"
    w("%s Interpretation for %s { type Resource = LocalTerm;" % (head, ty),
      "    open spec fn iri_is(&self, i: Seq<char>, r: Option<LocalTerm>) -> bool { %s }" % iri,
      "    open spec fn lit_is(&self, l: LitV, r: Option<LocalTerm>) -> bool { r matches Some(t) && t.v() == LocalV::Named(TermV::Lit(l)) }")
    own = lambda t: "impl%s %s for %s" % (gen, t, ty)
    fn(f, own("Interpretation"), "iri", ""); fn(f, own("Interpretation"), "literal", "")
    w("}", "%s InterpretationMut for %s {" % (head, ty),
      "    open spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: LocalTerm) -> bool { r.v() == LocalV::Named(TermV::Iri(i)) && *after == *self }",
      "    open spec fn ins_lit(&self, l: LitV, after: &Self, r: LocalTerm) -> bool { r.v() == LocalV::Named(TermV::Lit(l)) && *after == *self }")
    fn(f, own("InterpretationMut"), "insert_iri", ""); fn(f, own("InterpretationMut"), "insert_literal", "")
    w("}", "%s ReverseInterpretation for %s {" % (head, ty),
      "    open spec fn iris(&self, r: LocalTerm) -> Seq<Seq<char>> { opt_seq(r.v().iri()) }",
      "    open spec fn lits(&self, r: LocalTerm) -> Seq<LitV> { opt_seq(r.v().lit()) }")
    for n in ("iris_of", "literals_of"):
        fn(f, own("ReverseInterpretation"), n, "", *(["eta", "inline 0"] if f == L else []), "subst `into_iter` => `into_opt_iter`")
    w("}")
transparent("()", "", N)
w("//@item term/generator/interpretation.rs | LocalGeneratorInterpretation | #[verifier::reject_recursive_types(G)]")
transparent("LocalGeneratorInterpretation<G>", "<G>", L)
G = "impl<G> %s for LocalGeneratorInterpretation<G>"
w("impl<G> LocalInterpretation for LocalGeneratorInterpretation<G> {",
  "    open spec fn blank_is(&self, b: Seq<char>, r: Option<LocalTerm>) -> bool { r matches Some(t) && t.v() == LocalV::Anon(b) }")
fn(L, G % "LocalInterpretation", "blank_id", "")
w("}", "impl<G> ReverseLocalInterpretation for LocalGeneratorInterpretation<G> {",   "    open spec fn blanks(&self, r: LocalTerm) -> Seq<Seq<char>> { opt_seq(r.v().blank()) }")
fn(L, G % "ReverseLocalInterpretation", "blank_ids_of", "", "eta", "inline 0", "subst `into_iter` => `into_opt_iter`")
w("}")
# ---- an interpretation with a generator
w("""pub broadcast proof fn into_cow_term(t: Term, y: CowTerm<'_>) requires #[trigger] call_ensures(Into::<CowTerm<'_>>::into, (t,), y) ensures y.v() == t.v() { assert(call_ensures(<CowTerm<'_> as From<Term>>::from, (t,), y)); }
pub broadcast proof fn into_cow_local_term(t: LocalTerm, y: CowLocalTerm<'_>) requires #[trigger] call_ensures(Into::<CowLocalTerm<'_>>::into, (t,), y) ensures y.v() == t.v() { assert(call_ensures(<CowLocalTerm<'_> as From<LocalTerm>>::from, (t,), y)); }
// ---- generators: the next term, and the generator after it
pub trait Generator {
    spec fn gives(&self, after: &Self, t: Term) -> bool;
    fn next_term(&mut self) -> (r: Term) ensures old(self).gives(final(self), r);
}
pub trait LocalGenerator {
    spec fn gives_local(&self, after: &Self, t: LocalTerm) -> bool;
    fn next_local_term(&mut self) -> (r: LocalTerm) ensures old(self).gives_local(final(self), r);
}
impl<T> RefCell<T> {
    #[verifier::external_body]
    pub fn borrow_mut(&self) -> RefMut<T> { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefMut<T> { t: Vec<T> }
impl<G: LocalGenerator> RefMut<G> {
    #[verifier::external_body]
    pub fn next_local_term(&mut self) -> (r: LocalTerm) ensures exists|a: G, b: G| a.gives_local(&b, r) { unimplemented!() }
}
pub trait GenerativeInterpretation: Interpretation {
    spec fn creates(&self, after: &Self, r: Self::Resource) -> bool;
    fn new_resource(&mut self) -> (r: Self::Resource) ensures old(self).creates(final(self), r);
}""")
w("""pub trait ConstGenerativeInterpretation: Interpretation {
    spec fn fresh(&self, r: Self::Resource) -> bool;
    fn new_resource(&self) -> (r: Self::Resource) ensures self.fresh(r);
}
impl<I: ConstGenerativeInterpretation> GenerativeInterpretation for I {
    open spec fn creates(&self, after: &Self, r: I::Resource) -> bool { self.fresh(r) && *after == *self }""")
fn(M, "impl<I: ConstGenerativeInterpretation> GenerativeInterpretation for I", "new_resource", "")
w("""}
// a new resource is a term the generator gives, in some state of it (the state is behind a RefCell)
impl<G: LocalGenerator> ConstGenerativeInterpretation for LocalGeneratorInterpretation<G> {
    open spec fn fresh(&self, r: LocalTerm) -> bool { exists|a: G, b: G| a.gives_local(&b, r) }""")
fn(L, "impl<G: LocalGenerator> ConstGenerativeInterpretation for LocalGeneratorInterpretation<G>", "new_resource", "")
w("}")
w("""// what the RefCell holds, when it is read as a plain cell (one thread, no borrow outstanding: &self becomes &mut self):
// each new resource is the generator's next term, and the generator moves on by it
impl<T> RefCell<T> {
    pub uninterp spec fn held(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: RefCell<T>) ensures r.held() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: T) ensures r == self.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn held_mut(&mut self) -> (r: &mut T) ensures *r == old(self).held(), *final(r) == final(self).held() { unimplemented!() }
}
impl<G> LocalGeneratorInterpretation<G> {""")
o.append("//@fn %s | impl<G> LocalGeneratorInterpretation<G> | new\n//@  ret r\n//@  spec ensures r.0.held() == $0\n//@end" % L)
o.append("//@fn %s | impl<G> LocalGeneratorInterpretation<G> | into_generator\n//@  ret r\n//@  spec ensures r == self.0.held()\n//@end" % L)
w("}", "impl<G: LocalGenerator> LocalGeneratorInterpretation<G> {")
o.append("//@fn %s | impl<G: LocalGenerator> ConstGenerativeInterpretation for LocalGeneratorInterpretation<G> | new_resource\n//@  as new_resource_state\n//@  ret r\n//@  subst `&self` => `&mut self`\n//@  subst `Self::Resource` => `LocalTerm`\n//@  subst `borrow_mut` => `held_mut`\n//@  spec ensures old(self).0.held().gives_local(&final(self).0.held(), r)\n//@end" % L)
w("}")
GM = "term/generator/mod.rs"
for tr, m, g, t in (("Generator", "next_term", "gives", "Term"), ("LocalGenerator", "next_local_term", "gives_local", "LocalTerm")):
    w("// a generator borrowed mutably is that generator", "pub struct Lent%s<'g, G>(pub &'g mut G);" % tr, "impl<'g, G: %s> Lent%s<'g, G> {" % (tr, tr))
    o.append("//@fn %s | impl<G: %s> %s for &mut G | %s\n//@  as %s_lent\n//@  ret r\n//@  subst `&mut self` => `__g: &mut G`\n//@  subst `self` => `__g`\n//@  spec ensures old(__g).%s(final(__g), r)\n//@end" % (GM, tr, tr, m, m, g))
    w("}")
w("""// ---- error-capable variants, for any interpretation: the same answers, never an error
#[verifier::external_body]
pub struct Infallible { v: std::convert::Infallible }
pub trait FallibleInterpretation: Sized { type Resource; type Error; }
impl<I: Interpretation> FallibleInterpretation for I { type Resource = <I as Interpretation>::Resource; type Error = Infallible; }
pub trait FallibleGenerativeInterpretation: FallibleInterpretation {
    spec fn creates_ok(&self, after: &Self, r: Result<Self::Resource, Self::Error>) -> bool;
    fn try_new_resource(&mut self) -> (r: Result<Self::Resource, Self::Error>) ensures old(self).creates_ok(final(self), r);
}
impl<I: GenerativeInterpretation> FallibleGenerativeInterpretation for I {
    open spec fn creates_ok(&self, after: &Self, r: Result<<I as Interpretation>::Resource, Infallible>) -> bool { r is Ok && self.creates(after, r->Ok_0) }""")
o.append("//@fn interpretation/fallible.rs | impl<I: GenerativeInterpretation> FallibleGenerativeInterpretation for I | try_new_resource\n//@  ret r\n//@  bare\n//@  subst `Self::Resource` => `<I as Interpretation>::Resource`\n//@  subst `Self::Error` => `Infallible`\n//@end")
w("""}
//@item utils.rs | InfallibleIterator
impl<I: Iterator> Iterator for InfallibleIterator<I> {
    type Item = Result<I::Item, Infallible>;
    open spec fn rest(&self) -> Seq<Self::Item> { self.0.rest().map_values(|x: I::Item| Ok::<I::Item, Infallible>(x)) }
//@fn utils.rs | impl<I: Iterator> Iterator for InfallibleIterator<I> | next
//@ bare
//@ eta
//@ inline *
//@ ret r
//@ proof if self.0.rest().len() > 0 { assert(self.0.rest().skip(1).map_values(|x: I::Item| Ok::<I::Item, Infallible>(x)) =~= self.rest().skip(1)); }
//@end
}
pub trait TraversableInterpretation: Interpretation {
    spec fn listed(&self) -> Seq<Self::Resource>;
    fn resources<'x>(&'x self) -> (r: AnyIter<&'x Self::Resource>) ensures behind(r.rest()) == self.listed();
}
pub open spec fn behind<'x, T>(s: Seq<&'x T>) -> Seq<T> { s.map_values(|x: &'x T| *x) }
pub struct TryTraversal<'x, I>(pub &'x I);
impl<'x, I: TraversableInterpretation> TryTraversal<'x, I> {
//@fn interpretation/fallible.rs | impl<I: super::TraversableInterpretation> TraversableFallibleInterpretation for I | try_resources
//@  ret r
//@  subst `&self` => `this: &'x I`
//@  subst `self` => `this`
//@  subst `Self::Resources<'_>` => `InfallibleIterator<AnyIter<&'x I::Resource>>`
//@  spec ensures r.rest().len() == this.listed().len(), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] is Ok && *r.rest()[i]->Ok_0 == this.listed()[i]
//@  proof assert forall|t: AnyIter<&'x I::Resource>| #[trigger] behind(t.rest()) == this.listed() implies t.rest().len() == this.listed().len() && forall|i: int| 0 <= i < t.rest().len() ==> *(#[trigger] t.rest()[i]) == this.listed()[i] by { let m = behind(t.rest()); assert(m.len() == t.rest().len()); assert forall|i: int| 0 <= i < t.rest().len() implies *(#[trigger] t.rest()[i]) == this.listed()[i] by { assert(m[i] == *t.rest()[i]); } }
//@end
}""")
for ty, gen, gives, ins, I in (("WithGenerator", "Generator", "gives", "ins_term", "InterpretationMut"), ("WithLocalGenerator", "LocalGenerator", "gives_local", "ins_local", "LocalInterpretationMut")):
    w("//@item %s | %s | `= ()` => ``" % (W, ty))
    w("impl<G, I> %s<G, I> {" % ty)
    own = "impl<G, I> %s<G, I>" % ty
    for n, s in (("new", "r.interpretation == $0, r.generator == $1"), ("into_parts", "r == (self.interpretation, self.generator)"), ("inner_interpretation", "*r == self.interpretation"),
      ("inner_interpretation_mut", "*r == old(self).interpretation, final(self).interpretation == *final(r), final(self).generator == old(self).generator"),
      ("generator", "*r == self.generator"), ("generator_mut", "*r == old(self).generator, final(self).generator == *final(r), final(self).interpretation == old(self).interpretation"),
      ("into_inner_interpretation", "r == self.interpretation"), ("into_generator", "r == self.generator")):
        fn(W, own, n, s, "pub")
    w("}")
    def imp(tr, specs, fns, types=(), extra="", more=()):
        w("impl<I: %s, G%s> %s for %s<G, I> {" % (I if tr == "GenerativeInterpretation" else tr, extra, tr, ty))
        for t in types: w("    " + t)
        for s in specs: w("    open " + s)
        for n in fns: fn(W, "impl<I: %s, G%s> %s for %s<G, I>" % (I if tr == "GenerativeInterpretation" else tr, extra, tr, ty), n, "", *more)
        w("}")
    X = "self.interpretation"
    imp("Interpretation", ["spec fn iri_is(&self, i: Seq<char>, r: Option<I::Resource>) -> bool { %s.iri_is(i, r) }" % X, "spec fn lit_is(&self, l: LitV, r: Option<I::Resource>) -> bool { %s.lit_is(l, r) }" % X],
        ["iri", "literal"], ["type Resource = I::Resource;"])
    keep = "after.generator == self.generator"
    imp("InterpretationMut", ["spec fn ins_iri(&self, i: Seq<char>, after: &Self, r: I::Resource) -> bool { %s.ins_iri(i, &after.interpretation, r) && %s }" % (X, keep),
        "spec fn ins_lit(&self, l: LitV, after: &Self, r: I::Resource) -> bool { %s.ins_lit(l, &after.interpretation, r) && %s }" % (X, keep)], ["insert_iri", "insert_literal"])
    imp("ReverseInterpretation", ["spec fn iris(&self, r: I::Resource) -> Seq<Seq<char>> { %s.iris(r) }" % X, "spec fn lits(&self, r: I::Resource) -> Seq<LitV> { %s.lits(r) }" % X],
        ["iris_of", "literals_of"])
    if ty == "WithLocalGenerator":
        w("impl<I: LocalInterpretation, G> LocalInterpretation for %s<G, I> {" % ty, "    open spec fn blank_is(&self, b: Seq<char>, r: Option<I::Resource>) -> bool { %s.blank_is(b, r) }" % X)
        fn(W, "impl<I: LocalInterpretation, G> LocalInterpretation for %s<G, I>" % ty, "blank_id", "", "subst? `<'a>` => ``", "subst? `&'a` => `&`")
        w("}")
        imp("LocalInterpretationMut", ["spec fn ins_blank(&self, b: Seq<char>, after: &Self, r: I::Resource) -> bool { %s.ins_blank(b, &after.interpretation, r) && %s }" % (X, keep)], ["insert_blank_id"])
        imp("ReverseLocalInterpretation", ["spec fn blanks(&self, r: I::Resource) -> Seq<Seq<char>> { %s.blanks(r) }" % X], ["blank_ids_of"])
    imp("GenerativeInterpretation", ["spec fn creates(&self, after: &Self, r: I::Resource) -> bool { exists|t: %s| #![trigger t.v()] self.generator.%s(&after.generator, t) && %s(&%s, t.v(), &after.interpretation, r) }" %
        ("Term" if ty == "WithGenerator" else "LocalTerm", gives, ins, X)], ["new_resource"], (), ": " + gen, ["proof broadcast use {into_cow_term, into_cow_local_term};"])
w("""// ---- the property, over these contracts: what was interpreted is what is reported
pub open spec fn transparent<I: ReverseInterpretation<Resource = LocalTerm>>(i: &I) -> bool {
    &&& forall|t: LocalTerm, x: Seq<char>| #[trigger] i.iri_is(x, Some(t)) ==> i.iris(t) == seq![x] && i.lits(t).len() == 0
    &&& forall|t: LocalTerm, x: LitV| #[trigger] i.lit_is(x, Some(t)) ==> i.lits(t) == seq![x] && i.iris(t).len() == 0
}
pub proof fn unit_transparent() ensures transparent(&()) { }
pub proof fn generator_transparent<G>(i: &LocalGeneratorInterpretation<G>) ensures transparent(i),
    forall|t: LocalTerm, x: Seq<char>| #[trigger] i.blank_is(x, Some(t)) ==> i.blanks(t) == seq![x] && terms(i, t) == Seq::<TermV>::empty() { 
    assert forall|t: LocalTerm, x: Seq<char>| #[trigger] i.blank_is(x, Some(t)) implies i.blanks(t) == seq![x] && terms(i, t) == Seq::<TermV>::empty() by { assert(terms(i, t) =~= Seq::<TermV>::empty()); } }
pub proof fn inserted_transparent(x: Seq<char>, l: LitV, t: LocalTerm, u: ()) ensures ().ins_iri(x, &u, t) ==> ().iri_is(x, Some(t)), ().ins_lit(l, &u, t) ==> ().lit_is(l, Some(t)) { }
""")
open(os.path.join(H, "verus/interpretation_core.rs"), "w").write("\n".join(o) + "\n")
