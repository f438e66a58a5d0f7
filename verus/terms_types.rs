// (generated by tools/mkterms.py)
// ---- the values terms denote, whatever the form holding them
pub enum TypeV { Any(Seq<char>), Lang(Seq<char>) }
pub struct LitV { pub value: Seq<char>, pub ty: TypeV }
pub enum TermV { Iri(Seq<char>), Lit(LitV) }
pub enum LocalV { Anon(Seq<char>), Named(TermV) }
pub enum IdV { Blank(Seq<char>), Iri(Seq<char>) }

//@item literal/type/mod.rs | LiteralType
//@item literal/type/ref.rs | LiteralTypeRef | #[derive(Clone, Copy)]
//@item literal/type/cow.rs | CowLiteralType
//@item literal/mod.rs | Literal
//@item literal/ref.rs | LiteralRef | #[derive(Clone, Copy)]
//@item literal/cow.rs | CowLiteral
//@item term/mod.rs | Term
//@item term/ref.rs | TermRef | #[derive(Clone, Copy)]
//@item term/cow.rs | CowTerm
//@item term/local/mod.rs | LocalTerm
//@item term/local/ref.rs | LocalTermRef | #[derive(Clone, Copy)]
//@item term/local/cow.rs | CowLocalTerm
//@item id/mod.rs | Id
//@item id/ref.rs | IdRef | #[derive(Clone, Copy)]
//@item id/cow.rs | CowId
impl LiteralType { pub open spec fn v(&self) -> TypeV { match *self { LiteralType::Any(i) => TypeV::Any(i@), LiteralType::LangString(t) => TypeV::Lang(t@) } } }
impl<'a> LiteralTypeRef<'a> { pub open spec fn v(&self) -> TypeV { match *self { LiteralTypeRef::Any(i) => TypeV::Any(i@), LiteralTypeRef::LangString(t) => TypeV::Lang(t@) } } }
impl<'a> CowLiteralType<'a> { pub open spec fn v(&self) -> TypeV { match *self { CowLiteralType::Any(i) => TypeV::Any(cow_iri(i)), CowLiteralType::LangString(t) => TypeV::Lang(cow_tag(t)) } } }
impl Literal { pub open spec fn v(&self) -> LitV { LitV { value: self.value@, ty: self.type_.v() } } }
impl<'a> LiteralRef<'a> { pub open spec fn v(&self) -> LitV { LitV { value: self.value@, ty: self.type_.v() } } }
impl<'a> CowLiteral<'a> { pub open spec fn v(&self) -> LitV { LitV { value: cow_str(self.value), ty: self.type_.v() } } }
impl Term { pub open spec fn v(&self) -> TermV { match *self { Term::Iri(i) => TermV::Iri(i@), Term::Literal(l) => TermV::Lit(l.v()) } } }
impl<'a> TermRef<'a> { pub open spec fn v(&self) -> TermV { match *self { TermRef::Iri(i) => TermV::Iri(i@), TermRef::Literal(l) => TermV::Lit(l.v()) } } }
impl<'a> CowTerm<'a> { pub open spec fn v(&self) -> TermV { match *self { CowTerm::Iri(i) => TermV::Iri(cow_iri(i)), CowTerm::Literal(l) => TermV::Lit(l.v()) } } }
impl LocalTerm { pub open spec fn v(&self) -> LocalV { match *self { LocalTerm::Anonymous(b) => LocalV::Anon(b@), LocalTerm::Named(t) => LocalV::Named(t.v()) } } }
impl<'a> LocalTermRef<'a> { pub open spec fn v(&self) -> LocalV { match *self { LocalTermRef::Anonymous(b) => LocalV::Anon(b@), LocalTermRef::Named(t) => LocalV::Named(t.v()) } } }
impl<'a> CowLocalTerm<'a> { pub open spec fn v(&self) -> LocalV { match *self { CowLocalTerm::Anonymous(b) => LocalV::Anon(cow_blank(b)), CowLocalTerm::Named(t) => LocalV::Named(t.v()) } } }
impl Id { pub open spec fn v(&self) -> IdV { match *self { Id::BlankId(b) => IdV::Blank(b@), Id::Iri(i) => IdV::Iri(i@) } } }
impl<'a> IdRef<'a> { pub open spec fn v(&self) -> IdV { match *self { IdRef::BlankId(b) => IdV::Blank(b@), IdRef::Iri(i) => IdV::Iri(i@) } } }
impl<'a> CowId<'a> { pub open spec fn v(&self) -> IdV { match *self { CowId::BlankId(b) => IdV::Blank(cow_blank(b)), CowId::Iri(i) => IdV::Iri(cow_iri(i)) } } }
// the value held by an optional part
pub open spec fn oiri(o: Option<&Iri>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn otag(o: Option<&LangTag>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn oblank(o: Option<&BlankId>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn olit(o: Option<LiteralRef>) -> Option<LitV> { match o { Some(x) => Some(x.v()), None => None } }
impl TypeV {
    pub open spec fn tag(self) -> Option<Seq<char>> { match self { TypeV::Lang(t) => Some(t), TypeV::Any(_) => None } }
    pub open spec fn is_iri(self, i: Seq<char>) -> bool { match self { TypeV::Any(j) => iri_eq(j, i), TypeV::Lang(_) => false } }
}
impl TermV {
    pub open spec fn iri(self) -> Option<Seq<char>> { match self { TermV::Iri(t) => Some(t), TermV::Lit(_) => None } }
    pub open spec fn lit(self) -> Option<LitV> { match self { TermV::Lit(t) => Some(t), TermV::Iri(_) => None } }
}
impl LocalV {
    pub open spec fn blank(self) -> Option<Seq<char>> { match self { LocalV::Anon(t) => Some(t), LocalV::Named(_) => None } }
    pub open spec fn iri(self) -> Option<Seq<char>> { match self { LocalV::Named(t) => t.iri(), LocalV::Anon(_) => None } }
    pub open spec fn lit(self) -> Option<LitV> { match self { LocalV::Named(t) => t.lit(), LocalV::Anon(_) => None } }
}
// the datatype of plain strings; its text is read from schema.rs
pub const XSD_STRING_TEXT: &'static str = @const:lib.rs:XSD_STRING@;
pub open spec fn xsd_string() -> Seq<char> { XSD_STRING_TEXT@ }
#[verifier::external_body]
pub exec const XSD_STRING: &'static Iri ensures XSD_STRING@ == xsd_string() { unsafe { core::mem::transmute(XSD_STRING_TEXT) } }

