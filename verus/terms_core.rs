// (generated by tools/mkterms.py)
impl LiteralType {
//@fn literal/type/mod.rs | impl LiteralType | is_lang_string
//@  ret r
//@  spec ensures r == (self.v() is Lang)
//@end
//@fn literal/type/mod.rs | impl LiteralType | lang_tag
//@  ret r
//@  spec ensures otag(r) == self.v().tag()
//@end
//@fn literal/type/mod.rs | impl LiteralType | is_xsd_string
//@  ret r
//@  spec ensures r == self.v().is_iri(xsd_string())
//@end
//@fn literal/type/mod.rs | impl LiteralType | is_iri
//@  ret r
//@  spec ensures r == self.v().is_iri($1@)
//@end
//@fn literal/type/mod.rs | impl LiteralType | as_ref
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/type/mod.rs | impl LiteralType | as_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/type/mod.rs | impl LiteralType | into_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> LiteralTypeRef<'a> {
//@fn literal/type/ref.rs | impl<'a> LiteralTypeRef<'a> | is_lang_string
//@  ret r
//@  spec ensures r == (self.v() is Lang)
//@end
//@fn literal/type/ref.rs | impl<'a> LiteralTypeRef<'a> | lang_tag
//@  ret r
//@  spec ensures otag(r) == self.v().tag()
//@end
//@fn literal/type/ref.rs | impl<'a> LiteralTypeRef<'a> | is_xsd_string
//@  ret r
//@  spec ensures r == self.v().is_iri(xsd_string())
//@end
//@fn literal/type/ref.rs | impl<'a> LiteralTypeRef<'a> | is_iri
//@  ret r
//@  spec ensures r == self.v().is_iri($1@)
//@end
//@fn literal/type/ref.rs | impl LiteralTypeRef<'_> | into_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl CowLiteralType<'_> | as_ref
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/type/cow.rs | impl CowLiteralType<'_> | into_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> FromSpecImpl<CowLiteralType<'a>> for LiteralType { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: CowLiteralType<'a>) -> Self; }
impl<'a> From<CowLiteralType<'a>> for LiteralType {
//@fn literal/type/cow.rs | impl<'a> From<CowLiteralType<'a>> for LiteralType | from
//@  ret r
//@  spec ensures r.v() == $0.v()
//@  bare
//@end
}
impl<'a> FromSpecImpl<LiteralTypeRef<'a>> for CowLiteralType<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: LiteralTypeRef<'a>) -> Self; }
impl<'a> From<LiteralTypeRef<'a>> for CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl<'a> From<LiteralTypeRef<'a>> for CowLiteralType<'a> | from
//@  ret r
//@  spec ensures r.v() == $0.v()
//@  bare
//@end
}
impl<'a> FromSpecImpl<&'a Iri> for CowLiteralType<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a Iri) -> Self; }
impl<'a> From<&'a Iri> for CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl<'a> From<&'a Iri> for CowLiteralType<'a> | from
//@  ret r
//@  spec ensures r.v() == TypeV::Any($0@)
//@  bare
//@end
}
impl<'a> FromSpecImpl<IriBuf> for CowLiteralType<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: IriBuf) -> Self; }
impl<'a> From<IriBuf> for CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl From<IriBuf> for CowLiteralType<'_> | from
//@  ret r
//@  spec ensures r.v() == TypeV::Any($0@)
//@  bare
//@end
}
impl<'a> FromSpecImpl<Cow<'a, Iri>> for CowLiteralType<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Cow<'a, Iri>) -> Self; }
impl<'a> From<Cow<'a, Iri>> for CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl<'a> From<Cow<'a, Iri>> for CowLiteralType<'a> | from
//@  ret r
//@  spec ensures r.v() == TypeV::Any(cow_iri($0))
//@  bare
//@end
}
impl<'a> FromSpecImpl<&'a LangTag> for CowLiteralType<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a LangTag) -> Self; }
impl<'a> From<&'a LangTag> for CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl<'a> From<&'a LangTag> for CowLiteralType<'a> | from
//@  ret r
//@  spec ensures r.v() == TypeV::Lang($0@)
//@  bare
//@end
}
impl<'a> FromSpecImpl<LangTagBuf> for CowLiteralType<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: LangTagBuf) -> Self; }
impl<'a> From<LangTagBuf> for CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl From<LangTagBuf> for CowLiteralType<'_> | from
//@  ret r
//@  spec ensures r.v() == TypeV::Lang($0@)
//@  bare
//@end
}
impl<'a> FromSpecImpl<Cow<'a, LangTag>> for CowLiteralType<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Cow<'a, LangTag>) -> Self; }
impl<'a> From<Cow<'a, LangTag>> for CowLiteralType<'a> {
//@fn literal/type/cow.rs | impl<'a> From<Cow<'a, LangTag>> for CowLiteralType<'a> | from
//@  ret r
//@  spec ensures r.v() == TypeV::Lang(cow_tag($0))
//@  bare
//@end
}
impl Literal {
//@fn literal/mod.rs | impl Literal | new
//@  ret r
//@  spec ensures exists|a: String, b: LiteralType| r == (Literal { value: a, type_: b }) && call_ensures(Into::<String>::into, ($0,), a) && call_ensures(Into::<LiteralType>::into, ($1,), b)
//@end
//@fn literal/mod.rs | impl Literal | as_type
//@  ret r
//@  spec ensures *r == self.type_
//@end
//@fn literal/mod.rs | impl Literal | into_type
//@  ret r
//@  spec ensures r == self.type_
//@end
//@fn literal/mod.rs | impl Literal | as_type_mut
//@  ret r
//@  spec ensures *r == old(self).type_, final(self).type_ == *final(r), final(self).value == old(self).value
//@end
//@fn literal/mod.rs | impl Literal | as_value
//@  ret r
//@  spec ensures *r == self.value
//@end
//@fn literal/mod.rs | impl Literal | into_value
//@  ret r
//@  spec ensures r == self.value
//@end
//@fn literal/mod.rs | impl Literal | as_value_mut
//@  ret r
//@  spec ensures *r == old(self).value, final(self).value == *final(r), final(self).type_ == old(self).type_
//@end
//@fn literal/mod.rs | impl Literal | into_parts
//@  ret r
//@  spec ensures r == (self.value, self.type_)
//@end
//@fn literal/mod.rs | impl Literal | as_str
//@  ret r
//@  spec ensures r@ == self.v().value
//@end
//@fn literal/mod.rs | impl Literal | as_bytes
//@  ret r
//@  spec ensures r@ == encode_utf8(self.v().value)
//@  proof broadcast use vstd::string::group_string_axioms;
//@end
//@fn literal/mod.rs | impl Borrow<str> for Literal | borrow
//@  ret r
//@  spec ensures r@ == self.v().value
//@  as borrow_str
//@end
//@fn literal/mod.rs | impl AsRef<str> for Literal | as_ref
//@  ret r
//@  spec ensures r@ == self.v().value
//@  as as_ref_str
//@end
//@fn literal/mod.rs | impl Literal | is_lang_string
//@  ret r
//@  spec ensures r == (self.v().ty is Lang)
//@end
//@fn literal/mod.rs | impl Literal | lang_tag
//@  ret r
//@  spec ensures otag(r) == self.v().ty.tag()
//@end
//@fn literal/mod.rs | impl Literal | as_ref
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/mod.rs | impl Literal | as_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/mod.rs | impl Literal | into_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> LiteralRef<'a> {
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | new
//@  ret r
//@  spec ensures r == (LiteralRef { value: $0, type_: $1 })
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | as_type
//@  ret r
//@  spec ensures r == self.type_
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | into_type
//@  ret r
//@  spec ensures r == self.type_
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | as_type_mut
//@  ret r
//@  spec ensures *r == old(self).type_, final(self).type_ == *final(r), final(self).value == old(self).value
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | as_value
//@  ret r
//@  spec ensures r == self.value
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | into_value
//@  ret r
//@  spec ensures r == self.value
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | into_parts
//@  ret r
//@  spec ensures r == (self.value, self.type_)
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | as_str
//@  ret r
//@  spec ensures r@ == self.v().value
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | as_bytes
//@  ret r
//@  spec ensures r@ == encode_utf8(self.v().value)
//@  proof broadcast use vstd::string::group_string_axioms;
//@end
//@fn literal/ref.rs | impl Borrow<str> for LiteralRef<'_> | borrow
//@  ret r
//@  spec ensures r@ == self.v().value
//@  as borrow_str
//@end
//@fn literal/ref.rs | impl AsRef<str> for LiteralRef<'_> | as_ref
//@  ret r
//@  spec ensures r@ == self.v().value
//@  as as_ref_str
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | is_lang_string
//@  ret r
//@  spec ensures r == (self.v().ty is Lang)
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | lang_tag
//@  ret r
//@  spec ensures otag(r) == self.v().ty.tag()
//@end
//@fn literal/ref.rs | impl<'a> LiteralRef<'a> | into_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/ref.rs | impl LiteralRef<'_> | to_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/ref.rs | impl LiteralRef<'_> | cloned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> CowLiteral<'a> {
//@fn literal/cow.rs | impl<'a> CowLiteral<'a> | new
//@  ret r
//@  spec ensures exists|a: Cow<'a, str>, b: CowLiteralType<'a>| r == (CowLiteral { value: a, type_: b }) && call_ensures(Into::<Cow<'a, str>>::into, ($0,), a) && call_ensures(Into::<CowLiteralType<'a>>::into, ($1,), b)
//@end
//@fn literal/cow.rs | impl<'a> CowLiteral<'a> | as_ref
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn literal/cow.rs | impl<'a> CowLiteral<'a> | into_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> FromSpecImpl<&'a Literal> for CowLiteral<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a Literal) -> Self; }
impl<'a> From<&'a Literal> for CowLiteral<'a> {
//@fn literal/cow.rs | impl<'a> From<&'a Literal> for CowLiteral<'a> | from
//@  ret r
//@  spec ensures r.v() == $0.v()
//@  bare
//@end
}
impl Term {
//@fn term/mod.rs | impl Term | is_iri
//@  ret r
//@  spec ensures r == (self.v() is Iri)
//@end
//@fn term/mod.rs | impl Term | is_literal
//@  ret r
//@  spec ensures r == (self.v() is Lit)
//@end
//@fn term/mod.rs | impl Term | as_iri
//@  ret r
//@  spec ensures oiri(r) == self.v().iri()
//@end
//@fn term/mod.rs | impl Term | as_literal
//@  ret r
//@  spec ensures olit(r) == self.v().lit()
//@end
//@fn term/mod.rs | impl Term | into_literal
//@  ret r
//@  spec ensures r == (match self { Term::Literal(l) => Some(l), Term::Iri(_) => None })
//@end
//@fn term/mod.rs | impl Term | try_into_literal
//@  ret r
//@  spec ensures r == (match self { Term::Literal(l) => Ok(l), Term::Iri(i) => Err(i) })
//@end
//@fn term/mod.rs | impl Term | try_into_iri
//@  ret r
//@  spec ensures r == (match self { Term::Iri(i) => Ok(i), Term::Literal(_) => Err(self) })
//@end
//@fn term/mod.rs | impl Term | into_iri
//@  ret r
//@  spec ensures r == (match self { Term::Iri(i) => Some(i), Term::Literal(_) => None })
//@end
//@fn term/mod.rs | impl Term | as_ref
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn term/mod.rs | impl Term | as_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn term/mod.rs | impl Term | into_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> TermRef<'a> {
//@fn term/ref.rs | impl TermRef<'_> | to_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> CowTerm<'a> {
//@fn term/cow.rs | impl CowTerm<'_> | into_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> FromSpecImpl<Term> for CowTerm<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Term) -> Self; }
impl<'a> From<Term> for CowTerm<'a> {
//@fn term/cow.rs | impl From<Term> for CowTerm<'_> | from
//@  ret r
//@  spec ensures r.v() == $0.v()
//@  bare
//@end
}
impl LocalTerm {
//@fn term/local/mod.rs | impl LocalTerm | iri
//@  ret r
//@  spec ensures r == LocalTerm::Named(Term::Iri($0))
//@end
//@fn term/local/mod.rs | impl LocalTerm | literal
//@  ret r
//@  spec ensures r == LocalTerm::Named(Term::Literal($0))
//@end
//@fn term/local/mod.rs | impl LocalTerm | is_anonymous
//@  ret r
//@  spec ensures r == (self.v() is Anon)
//@end
//@fn term/local/mod.rs | impl LocalTerm | is_blank_id
//@  ret r
//@  spec ensures r == (self.v() is Anon)
//@end
//@fn term/local/mod.rs | impl LocalTerm | as_anonymous
//@  ret r
//@  spec ensures oblank(r) == self.v().blank()
//@end
//@fn term/local/mod.rs | impl LocalTerm | as_blank_id
//@  ret r
//@  spec ensures oblank(r) == self.v().blank()
//@end
//@fn term/local/mod.rs | impl LocalTerm | as_iri
//@  ret r
//@  spec ensures oiri(r) == self.v().iri()
//@end
//@fn term/local/mod.rs | impl LocalTerm | as_literal
//@  ret r
//@  spec ensures olit(r) == self.v().lit()
//@end
//@fn term/local/mod.rs | impl LocalTerm | as_ref
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn term/local/mod.rs | impl LocalTerm | as_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn term/local/mod.rs | impl LocalTerm | into_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> LocalTermRef<'a> {
//@fn term/local/ref.rs | impl LocalTermRef<'_> | to_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> FromSpecImpl<LocalTerm> for CowLocalTerm<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: LocalTerm) -> Self; }
impl<'a> From<LocalTerm> for CowLocalTerm<'a> {
//@fn term/local/cow.rs | impl From<LocalTerm> for CowLocalTerm<'_> | from
//@  ret r
//@  spec ensures r.v() == $0.v()
//@  bare
//@end
}
impl FromSpecImpl<IriBuf> for LocalTerm { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: IriBuf) -> Self; }
impl From<IriBuf> for LocalTerm {
//@fn term/local/mod.rs | impl From<IriBuf> for LocalTerm | from
//@  ret r
//@  spec ensures r == LocalTerm::Named(Term::Iri($0))
//@  bare
//@end
}
impl FromSpecImpl<Literal> for LocalTerm { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Literal) -> Self; }
impl From<Literal> for LocalTerm {
//@fn term/local/mod.rs | impl From<Literal> for LocalTerm | from
//@  ret r
//@  spec ensures r == LocalTerm::Named(Term::Literal($0))
//@  bare
//@end
}
impl FromSpecImpl<Term> for LocalTerm { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Term) -> Self; }
impl From<Term> for LocalTerm {
//@fn term/local/mod.rs | impl From<Term> for LocalTerm | from
//@  ret r
//@  spec ensures r == LocalTerm::Named($0)
//@  bare
//@end
}
impl FromSpecImpl<BlankIdBuf> for LocalTerm { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: BlankIdBuf) -> Self; }
impl From<BlankIdBuf> for LocalTerm {
//@fn term/local/mod.rs | impl From<BlankIdBuf> for LocalTerm | from
//@  ret r
//@  spec ensures r == LocalTerm::Anonymous($0)
//@  bare
//@end
}
impl Id {
//@fn id/mod.rs | impl Id | as_iri
//@  ret r
//@  spec ensures oiri(r) == (match self.v() { IdV::Iri(i) => Some(i), IdV::Blank(_) => None })
//@end
//@fn id/mod.rs | impl Id | as_ref
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn id/mod.rs | impl Id | as_cow
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
impl<'a> IdRef<'a> {
//@fn id/ref.rs | impl IdRef<'_> | to_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
//@fn id/ref.rs | impl IdRef<'_> | into_owned
//@  ret r
//@  spec ensures r.v() == self.v()
//@end
}
