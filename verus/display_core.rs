// ---- the N-Triples form of the values terms denote

pub open spec fn esc(c: char) -> Seq<char> {
    if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] }
    else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else { seq![c] }
}
// p followed by the characters of s, escaped
pub open spec fn escd(p: Seq<char>, s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { p } else { escd(p + esc(s[0]), s.skip(1)) } }
pub open spec fn string_rdf(s: Seq<char>) -> Seq<char> { escd(seq!['"'], s).push('"') }
pub open spec fn iri_rdf(s: Seq<char>) -> Seq<char> { seq!['<'] + s + seq!['>'] }
impl TypeV {
    pub open spec fn rdf(self) -> Seq<char> { match self { TypeV::Any(i) => seq!['^', '^'] + iri_rdf(i), TypeV::Lang(t) => seq!['@'] + t } }
}
impl LitV {
    pub open spec fn rdf(self) -> Seq<char> { string_rdf(self.value) + (if self.ty.is_iri(xsd_string()) { Seq::<char>::empty() } else { self.ty.rdf() }) }
}
impl TermV {
    pub open spec fn rdf(self) -> Seq<char> { match self { TermV::Iri(i) => iri_rdf(i), TermV::Lit(l) => l.rdf() } }
    // Display (not the RDF form) leaves the IRI bare
    pub open spec fn shown(self) -> Seq<char> { match self { TermV::Iri(i) => i, TermV::Lit(l) => l.rdf() } }
}
impl LocalV {
    pub open spec fn rdf(self) -> Seq<char> { match self { LocalV::Anon(b) => b, LocalV::Named(t) => t.rdf() } }
    pub open spec fn shown(self) -> Seq<char> { match self { LocalV::Anon(b) => b, LocalV::Named(t) => t.shown() } }
}
pub broadcast proof fn escd_from(p: Seq<char>, q: Seq<char>, s: Seq<char>)
    ensures #[trigger] escd(p + q, s) == p + escd(q, s)
    decreases s.len()
{ if s.len() > 0 { assert((p + q) + esc(s[0]) =~= p + (q + esc(s[0]))); escd_from(p, q + esc(s[0]), s.skip(1)); } }
//@always broadcast use {cat3, cat1, cat0, escd_from};
impl RdfDisplay for str { open spec fn rdf(&self) -> Seq<char> { string_rdf(self@) } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for str | rdf_fmt
//@  bare
//@  ret r
//@  attr #[verifier::exec_allows_no_decreases_clause]
//@  loop 0 invariant lawful(__it0), escd($1@, remaining(__it0)) == old($1)@ + escd(seq!['"'], self@)
//@end
}
impl RdfDisplay for String { open spec fn rdf(&self) -> Seq<char> { string_rdf(self@) } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for String | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for BlankId { open spec fn rdf(&self) -> Seq<char> { self@ } open spec fn rdf_fixed(&self) -> bool { false }
//@fn display.rs | impl RdfDisplay for BlankId | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for BlankIdBuf { open spec fn rdf(&self) -> Seq<char> { self@ } open spec fn rdf_fixed(&self) -> bool { false }
//@fn display.rs | impl RdfDisplay for BlankIdBuf | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for IriRef { open spec fn rdf(&self) -> Seq<char> { iri_rdf(self@) } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for iref::IriRef | rdf_fmt
//@  bare
//@  ret r
//@  attr #[verifier::exec_allows_no_decreases_clause]
//@  loop 0 invariant lawful(__it0), iri_legal(remaining(__it0)), $1@ + remaining(__it0) == old($1)@ + seq!['<'] + self@
//@end
}
impl RdfDisplay for Iri { open spec fn rdf(&self) -> Seq<char> { iri_rdf(self@) } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for iref::Iri | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for IriBuf { open spec fn rdf(&self) -> Seq<char> { iri_rdf(self@) } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for iref::IriBuf | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for IriRefBuf { open spec fn rdf(&self) -> Seq<char> { iri_rdf(self@) } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for iref::IriRefBuf | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for LangTag { open spec fn rdf(&self) -> Seq<char> { self@ } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for LangTag | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for LangTagBuf { open spec fn rdf(&self) -> Seq<char> { self@ } open spec fn rdf_fixed(&self) -> bool { true }
//@fn display.rs | impl RdfDisplay for LangTagBuf | rdf_fmt
//@  bare
//@  ret r
//@end
}
pub trait RdfDisplayWithContext<C: ?Sized> {
    spec fn rdf_with(&self, context: &C) -> Seq<char>;
    spec fn fixed_with(&self, context: &C) -> bool;
    fn rdf_fmt_with(&self, context: &C, f: &mut fmt::Formatter) -> (r: fmt::Result)
        ensures r is Ok && (old(f).plain() || self.fixed_with(context)) ==> final(f)@ == old(f)@ + self.rdf_with(context);
}
impl<C: ?Sized> RdfDisplayWithContext<C> for Iri { open spec fn rdf_with(&self, context: &C) -> Seq<char> { self.rdf() } open spec fn fixed_with(&self, context: &C) -> bool { self.rdf_fixed() }
//@fn display.rs | impl<C: ?Sized> RdfDisplayWithContext<C> for iref::Iri | rdf_fmt_with
//@  bare
//@  ret r
//@end
}
impl<C: ?Sized> RdfDisplayWithContext<C> for IriBuf { open spec fn rdf_with(&self, context: &C) -> Seq<char> { self.rdf() } open spec fn fixed_with(&self, context: &C) -> bool { self.rdf_fixed() }
//@fn display.rs | impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriBuf | rdf_fmt_with
//@  bare
//@  ret r
//@end
}
impl<C: ?Sized> RdfDisplayWithContext<C> for IriRefBuf { open spec fn rdf_with(&self, context: &C) -> Seq<char> { self.rdf() } open spec fn fixed_with(&self, context: &C) -> bool { self.rdf_fixed() }
//@fn display.rs | impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf | rdf_fmt_with
//@  bare
//@  ret r
//@end
}
impl<C: ?Sized> RdfDisplayWithContext<C> for LangTag { open spec fn rdf_with(&self, context: &C) -> Seq<char> { self.rdf() } open spec fn fixed_with(&self, context: &C) -> bool { self.rdf_fixed() }
//@fn display.rs | impl<C: ?Sized> RdfDisplayWithContext<C> for LangTag | rdf_fmt_with
//@  bare
//@  ret r
//@end
}
impl<C: ?Sized> RdfDisplayWithContext<C> for LangTagBuf { open spec fn rdf_with(&self, context: &C) -> Seq<char> { self.rdf() } open spec fn fixed_with(&self, context: &C) -> bool { self.rdf_fixed() }
//@fn display.rs | impl<C: ?Sized> RdfDisplayWithContext<C> for LangTagBuf | rdf_fmt_with
//@  bare
//@  ret r
//@end
}
impl<'a, T: RdfDisplayWithContext<C> + ?Sized, C: ?Sized> RdfDisplayWithContext<C> for &'a T { open spec fn rdf_with(&self, context: &C) -> Seq<char> { (**self).rdf_with(context) } open spec fn fixed_with(&self, context: &C) -> bool { (**self).fixed_with(context) }
//@fn display.rs | impl<'a, T: RdfDisplayWithContext<C> + ?Sized, C: ?Sized> RdfDisplayWithContext<C> for &'a T | rdf_fmt_with
//@  bare
//@  ret r
//@end
}
impl<'c, T: RdfDisplayWithContext<C>, C: ?Sized> RdfDisplay for Contextual<T, &'c C> { open spec fn rdf(&self) -> Seq<char> { self.0.rdf_with(&*self.1) } open spec fn rdf_fixed(&self) -> bool { self.0.fixed_with(&*self.1) }
//@fn display.rs | impl<'c, T: RdfDisplayWithContext<C>, C: ?Sized> RdfDisplay for contextual::Contextual<T, &'c C> | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl<'c, T: RdfDisplayWithContext<C>, C: ?Sized> RdfDisplay for Contextual<T, &'c mut C> { open spec fn rdf(&self) -> Seq<char> { self.0.rdf_with(&*self.1) } open spec fn rdf_fixed(&self) -> bool { self.0.fixed_with(&*self.1) }
//@fn display.rs | impl<'c, T: RdfDisplayWithContext<C>, C: ?Sized> RdfDisplay for contextual::Contextual<T, &'c mut C> | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl Shown for BlankId { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn fixed(&self) -> bool { false }
//@fn blankid.rs | impl fmt::Display for BlankId | fmt
//@  bare
//@  ret r
//@end
}
impl Shown for BlankIdBuf { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn fixed(&self) -> bool { false }
//@fn blankid.rs | impl fmt::Display for BlankIdBuf | fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for LiteralType { open spec fn rdf(&self) -> Seq<char> { self.v().rdf() } open spec fn rdf_fixed(&self) -> bool { true }
//@fn literal/type/mod.rs | impl RdfDisplay for LiteralType | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for LiteralTypeRef<'_> { open spec fn rdf(&self) -> Seq<char> { self.v().rdf() } open spec fn rdf_fixed(&self) -> bool { true }
//@fn literal/type/ref.rs | impl RdfDisplay for LiteralTypeRef<'_> | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for Literal { open spec fn rdf(&self) -> Seq<char> { self.v().rdf() } open spec fn rdf_fixed(&self) -> bool { true }
//@fn literal/mod.rs | impl RdfDisplay for Literal | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for LiteralRef<'_> { open spec fn rdf(&self) -> Seq<char> { self.v().rdf() } open spec fn rdf_fixed(&self) -> bool { true }
//@fn literal/ref.rs | impl RdfDisplay for LiteralRef<'_> | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl Shown for Literal { open spec fn shown(&self) -> Seq<char> { self.v().rdf() } open spec fn fixed(&self) -> bool { true }
//@fn literal/mod.rs | impl fmt::Display for Literal | fmt
//@  bare
//@  ret r
//@end
}
impl Shown for LiteralRef<'_> { open spec fn shown(&self) -> Seq<char> { self.v().rdf() } open spec fn fixed(&self) -> bool { true }
//@fn literal/ref.rs | impl fmt::Display for LiteralRef<'_> | fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for Term { open spec fn rdf(&self) -> Seq<char> { self.v().rdf() } open spec fn rdf_fixed(&self) -> bool { true }
//@fn term/mod.rs | impl RdfDisplay for Term | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl RdfDisplay for LocalTerm { open spec fn rdf(&self) -> Seq<char> { self.v().rdf() } open spec fn rdf_fixed(&self) -> bool { self.v() is Named }
//@fn term/local/mod.rs | impl RdfDisplay for LocalTerm | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl Shown for Term { open spec fn shown(&self) -> Seq<char> { self.v().shown() } open spec fn fixed(&self) -> bool { self.v() is Lit }
//@fn term/mod.rs | impl fmt::Display for Term | fmt
//@  bare
//@  ret r
//@end
}
impl Shown for LocalTerm { open spec fn shown(&self) -> Seq<char> { self.v().shown() } open spec fn fixed(&self) -> bool { match self.v() { LocalV::Anon(_) => false, LocalV::Named(t) => t is Lit } }
//@fn term/local/mod.rs | impl fmt::Display for LocalTerm | fmt
//@  bare
//@  ret r
//@end
}

// the same text whatever holds the value
impl BlankId {
//@fn blankid.rs | impl BlankId | as_str
//@  ret r
//@  spec ensures r@ == self@
//@end
    #[verifier::external_body]
    pub unsafe fn new_unchecked(s: &str) -> (r: &Self) ensures r@ == s@ { unimplemented!() }
}
impl BlankIdBuf {
//@fn blankid.rs | impl BlankIdBuf | as_blank_id_ref
//@  ret r
//@  spec ensures r@ == self@
//@end
}
