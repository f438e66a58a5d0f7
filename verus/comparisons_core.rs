// (generated by tools/mkcmp.py)
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub open spec fn type_eq(a: TypeV, b: TypeV) -> bool { match (a, b) { (TypeV::Any(x), TypeV::Any(y)) => iri_eq(x, y), (TypeV::Lang(x), TypeV::Lang(y)) => tag_eq(x, y), _ => false } }
pub open spec fn lit_eq(a: LitV, b: LitV) -> bool { a.value == b.value && type_eq(a.ty, b.ty) }
pub open spec fn term_eq(a: TermV, b: TermV) -> bool { match (a, b) { (TermV::Iri(x), TermV::Iri(y)) => iri_eq(x, y), (TermV::Lit(x), TermV::Lit(y)) => lit_eq(x, y), _ => false } }
pub open spec fn local_eq(a: LocalV, b: LocalV) -> bool { match (a, b) { (LocalV::Anon(x), LocalV::Anon(y)) => x == y, (LocalV::Named(x), LocalV::Named(y)) => term_eq(x, y), _ => false } }
pub open spec fn type_cmp(a: TypeV, b: TypeV) -> Ordering { match (a, b) { (TypeV::Any(x), TypeV::Any(y)) => iri_cmp(x, y), (TypeV::Lang(x), TypeV::Lang(y)) => tag_cmp(x, y),
    (TypeV::Any(_), TypeV::Lang(_)) => Ordering::Less, (TypeV::Lang(_), TypeV::Any(_)) => Ordering::Greater } }
pub open spec fn lit_cmp(a: LitV, b: LitV) -> Ordering { then(str_cmp(a.value, b.value), type_cmp(a.ty, b.ty)) }
pub open spec fn term_cmp(a: TermV, b: TermV) -> Ordering { match (a, b) { (TermV::Iri(x), TermV::Iri(y)) => iri_cmp(x, y), (TermV::Lit(x), TermV::Lit(y)) => lit_cmp(x, y),
    (TermV::Iri(_), TermV::Lit(_)) => Ordering::Less, (TermV::Lit(_), TermV::Iri(_)) => Ordering::Greater } }
pub open spec fn local_cmp(a: LocalV, b: LocalV) -> Ordering { match (a, b) { (LocalV::Anon(x), LocalV::Anon(y)) => str_cmp(x, y), (LocalV::Named(x), LocalV::Named(y)) => term_cmp(x, y),
    (LocalV::Anon(_), LocalV::Named(_)) => Ordering::Less, (LocalV::Named(_), LocalV::Anon(_)) => Ordering::Greater } }
// what is fed to a hasher
pub open spec fn type_hash(a: TypeV) -> Seq<Fed> { match a { TypeV::Any(x) => seq![Fed::Index(0)] + iri_hash(x), TypeV::Lang(x) => seq![Fed::Index(1)] + tag_hash(x) } }
pub open spec fn lit_hash(a: LitV) -> Seq<Fed> { str_hash(a.value) + type_hash(a.ty) }
pub open spec fn term_hash(a: TermV) -> Seq<Fed> { match a { TermV::Iri(x) => iri_hash(x), TermV::Lit(x) => lit_hash(x) } }
pub open spec fn local_hash(a: LocalV) -> Seq<Fed> { match a { LocalV::Anon(x) => str_hash(x), LocalV::Named(x) => term_hash(x) } }

//@include comparisons_laws.rs

impl PartialEqSpecImpl for BlankId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl PartialEq for BlankId {
//@derive blankid.rs | BlankId | PartialEq
}
impl Eq for BlankId { }
impl PartialOrdSpecImpl for BlankId { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(str_cmp(self@, o@)) } }
impl PartialOrd for BlankId {
//@derive blankid.rs | BlankId | PartialOrd
}
impl OrdSpecImpl for BlankId { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { str_cmp(self@, o@) } }
impl Ord for BlankId {
//@derive blankid.rs | BlankId | Ord
}
impl Hash for BlankId { open spec fn fed(&self) -> Seq<Fed> { str_hash(self@) }
//@derive blankid.rs | BlankId | Hash
}
impl PartialEqSpecImpl for BlankIdBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl PartialEq for BlankIdBuf {
//@derive blankid.rs | BlankIdBuf | PartialEq
}
impl Eq for BlankIdBuf { }
impl PartialOrdSpecImpl for BlankIdBuf { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(str_cmp(self@, o@)) } }
impl PartialOrd for BlankIdBuf {
//@derive blankid.rs | BlankIdBuf | PartialOrd
}
impl OrdSpecImpl for BlankIdBuf { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { str_cmp(self@, o@) } }
impl Ord for BlankIdBuf {
//@derive blankid.rs | BlankIdBuf | Ord
}
impl Hash for BlankIdBuf { open spec fn fed(&self) -> Seq<Fed> { str_hash(self@) }
//@derive blankid.rs | BlankIdBuf | Hash
}
impl PartialEqSpecImpl for LiteralType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { type_eq(self.v(), o.v()) } }
impl PartialEq for LiteralType {
//@derive literal/type/mod.rs | LiteralType | PartialEq
}
impl Eq for LiteralType { }
impl PartialOrdSpecImpl for LiteralType { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(type_cmp(self.v(), o.v())) } }
impl PartialOrd for LiteralType {
//@derive literal/type/mod.rs | LiteralType | PartialOrd
}
impl OrdSpecImpl for LiteralType { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { type_cmp(self.v(), o.v()) } }
impl Ord for LiteralType {
//@derive literal/type/mod.rs | LiteralType | Ord
}
impl Hash for LiteralType { open spec fn fed(&self) -> Seq<Fed> { type_hash(self.v()) }
//@derive literal/type/mod.rs | LiteralType | Hash
}
impl<'a> PartialEqSpecImpl for LiteralTypeRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { type_eq(self.v(), o.v()) } }
impl<'a> PartialEq for LiteralTypeRef<'a> {
//@derive literal/type/ref.rs | LiteralTypeRef | PartialEq
}
impl<'a> Eq for LiteralTypeRef<'a> { }
impl<'a> PartialOrdSpecImpl for LiteralTypeRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(type_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd for LiteralTypeRef<'a> {
//@derive literal/type/ref.rs | LiteralTypeRef | PartialOrd
}
impl<'a> OrdSpecImpl for LiteralTypeRef<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { type_cmp(self.v(), o.v()) } }
impl<'a> Ord for LiteralTypeRef<'a> {
//@derive literal/type/ref.rs | LiteralTypeRef | Ord
}
impl<'a> Hash for LiteralTypeRef<'a> { open spec fn fed(&self) -> Seq<Fed> { type_hash(self.v()) }
//@derive literal/type/ref.rs | LiteralTypeRef | Hash
}
impl<'a> PartialEqSpecImpl for CowLiteralType<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { type_eq(self.v(), o.v()) } }
impl<'a> PartialEq for CowLiteralType<'a> {
//@derive literal/type/cow.rs | CowLiteralType | PartialEq
}
impl<'a> Eq for CowLiteralType<'a> { }
impl<'a> PartialOrdSpecImpl for CowLiteralType<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(type_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd for CowLiteralType<'a> {
//@derive literal/type/cow.rs | CowLiteralType | PartialOrd
}
impl<'a> OrdSpecImpl for CowLiteralType<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { type_cmp(self.v(), o.v()) } }
impl<'a> Ord for CowLiteralType<'a> {
//@derive literal/type/cow.rs | CowLiteralType | Ord
}
impl<'a> Hash for CowLiteralType<'a> { open spec fn fed(&self) -> Seq<Fed> { type_hash(self.v()) }
//@derive literal/type/cow.rs | CowLiteralType | Hash
}
impl PartialEqSpecImpl for Literal { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { lit_eq(self.v(), o.v()) } }
impl PartialEq for Literal {
//@derive literal/mod.rs | Literal | PartialEq
}
impl Eq for Literal { }
impl PartialOrdSpecImpl for Literal { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lit_cmp(self.v(), o.v())) } }
impl PartialOrd for Literal {
//@derive literal/mod.rs | Literal | PartialOrd
}
impl OrdSpecImpl for Literal { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lit_cmp(self.v(), o.v()) } }
impl Ord for Literal {
//@derive literal/mod.rs | Literal | Ord
}
impl Hash for Literal { open spec fn fed(&self) -> Seq<Fed> { lit_hash(self.v()) }
//@derive literal/mod.rs | Literal | Hash
}
impl<'a> PartialEqSpecImpl for LiteralRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { lit_eq(self.v(), o.v()) } }
impl<'a> PartialEq for LiteralRef<'a> {
//@derive literal/ref.rs | LiteralRef | PartialEq
}
impl<'a> Eq for LiteralRef<'a> { }
impl<'a> PartialOrdSpecImpl for LiteralRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lit_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd for LiteralRef<'a> {
//@derive literal/ref.rs | LiteralRef | PartialOrd
}
impl<'a> OrdSpecImpl for LiteralRef<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lit_cmp(self.v(), o.v()) } }
impl<'a> Ord for LiteralRef<'a> {
//@derive literal/ref.rs | LiteralRef | Ord
}
impl<'a> Hash for LiteralRef<'a> { open spec fn fed(&self) -> Seq<Fed> { lit_hash(self.v()) }
//@derive literal/ref.rs | LiteralRef | Hash
}
impl<'a> PartialEqSpecImpl for CowLiteral<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { lit_eq(self.v(), o.v()) } }
impl<'a> PartialEq for CowLiteral<'a> {
//@derive literal/cow.rs | CowLiteral | PartialEq
}
impl<'a> Eq for CowLiteral<'a> { }
impl<'a> PartialOrdSpecImpl for CowLiteral<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lit_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd for CowLiteral<'a> {
//@derive literal/cow.rs | CowLiteral | PartialOrd
}
impl<'a> OrdSpecImpl for CowLiteral<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lit_cmp(self.v(), o.v()) } }
impl<'a> Ord for CowLiteral<'a> {
//@derive literal/cow.rs | CowLiteral | Ord
}
impl<'a> Hash for CowLiteral<'a> { open spec fn fed(&self) -> Seq<Fed> { lit_hash(self.v()) }
//@derive literal/cow.rs | CowLiteral | Hash
}
impl PartialEqSpecImpl for Term { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { term_eq(self.v(), o.v()) } }
impl PartialEq for Term {
//@derive term/mod.rs | Term | PartialEq
}
impl Eq for Term { }
impl PartialOrdSpecImpl for Term { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(term_cmp(self.v(), o.v())) } }
impl PartialOrd for Term {
//@derive term/mod.rs | Term | PartialOrd
}
impl OrdSpecImpl for Term { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { term_cmp(self.v(), o.v()) } }
impl Ord for Term {
//@derive term/mod.rs | Term | Ord
}
impl Hash for Term { open spec fn fed(&self) -> Seq<Fed> { term_hash(self.v()) }
//@derive term/mod.rs | Term | Hash
}
impl<'a> PartialEqSpecImpl for TermRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { term_eq(self.v(), o.v()) } }
impl<'a> PartialEq for TermRef<'a> {
//@derive term/ref.rs | TermRef | PartialEq
}
impl<'a> Eq for TermRef<'a> { }
impl<'a> PartialOrdSpecImpl for TermRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(term_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd for TermRef<'a> {
//@derive term/ref.rs | TermRef | PartialOrd
}
impl<'a> OrdSpecImpl for TermRef<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { term_cmp(self.v(), o.v()) } }
impl<'a> Ord for TermRef<'a> {
//@derive term/ref.rs | TermRef | Ord
}
impl PartialEqSpecImpl for LocalTerm { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { local_eq(self.v(), o.v()) } }
impl PartialEq for LocalTerm {
//@derive term/local/mod.rs | LocalTerm | PartialEq
}
impl Eq for LocalTerm { }
impl PartialOrdSpecImpl for LocalTerm { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(local_cmp(self.v(), o.v())) } }
impl PartialOrd for LocalTerm {
//@derive term/local/mod.rs | LocalTerm | PartialOrd
}
impl OrdSpecImpl for LocalTerm { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { local_cmp(self.v(), o.v()) } }
impl Ord for LocalTerm {
//@derive term/local/mod.rs | LocalTerm | Ord
}
impl Hash for LocalTerm { open spec fn fed(&self) -> Seq<Fed> { local_hash(self.v()) }
//@derive term/local/mod.rs | LocalTerm | Hash
}
impl<'a> PartialEqSpecImpl for LocalTermRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { local_eq(self.v(), o.v()) } }
impl<'a> PartialEq for LocalTermRef<'a> {
//@derive term/local/ref.rs | LocalTermRef | PartialEq
}
impl<'a> Eq for LocalTermRef<'a> { }
impl<'a> PartialOrdSpecImpl for LocalTermRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(local_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd for LocalTermRef<'a> {
//@derive term/local/ref.rs | LocalTermRef | PartialOrd
}
impl<'a> OrdSpecImpl for LocalTermRef<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { local_cmp(self.v(), o.v()) } }
impl<'a> Ord for LocalTermRef<'a> {
//@derive term/local/ref.rs | LocalTermRef | Ord
}
impl<'a> PartialEqSpecImpl<LiteralType> for LiteralTypeRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LiteralType) -> bool { type_eq(self.v(), o.v()) } }
impl<'a> PartialEq<LiteralType> for LiteralTypeRef<'a> {
//@fn literal/type/ref.rs | impl PartialEq<LiteralType> for LiteralTypeRef<'_> | eq
//@  bare
//@  ret r
//@end
}
impl<'a> PartialOrdSpecImpl<LiteralType> for LiteralTypeRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &LiteralType) -> Option<Ordering> { Some(type_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd<LiteralType> for LiteralTypeRef<'a> {
//@fn literal/type/ref.rs | impl PartialOrd<LiteralType> for LiteralTypeRef<'_> | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<'a> PartialEqSpecImpl<LiteralTypeRef<'a>> for LiteralType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LiteralTypeRef<'a>) -> bool { type_eq(self.v(), o.v()) } }
impl<'a> PartialEq<LiteralTypeRef<'a>> for LiteralType {
//@fn literal/type/ref.rs | impl<'a> PartialEq<LiteralTypeRef<'a>> for LiteralType | eq
//@  bare
//@  ret r
//@end
}
impl<'a> PartialOrdSpecImpl<LiteralTypeRef<'a>> for LiteralType { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &LiteralTypeRef<'a>) -> Option<Ordering> { Some(type_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd<LiteralTypeRef<'a>> for LiteralType {
//@fn literal/type/ref.rs | impl<'a> PartialOrd<LiteralTypeRef<'a>> for LiteralType | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<'a> PartialEqSpecImpl<Literal> for LiteralRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Literal) -> bool { lit_eq(self.v(), o.v()) } }
impl<'a> PartialEq<Literal> for LiteralRef<'a> {
//@fn literal/ref.rs | impl PartialEq<Literal> for LiteralRef<'_> | eq
//@  bare
//@  ret r
//@end
}
impl<'a> PartialOrdSpecImpl<Literal> for LiteralRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Literal) -> Option<Ordering> { Some(lit_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd<Literal> for LiteralRef<'a> {
//@fn literal/ref.rs | impl PartialOrd<Literal> for LiteralRef<'_> | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<'a> PartialEqSpecImpl<LiteralRef<'a>> for Literal { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LiteralRef<'a>) -> bool { lit_eq(self.v(), o.v()) } }
impl<'a> PartialEq<LiteralRef<'a>> for Literal {
//@fn literal/ref.rs | impl<'a> PartialEq<LiteralRef<'a>> for Literal | eq
//@  bare
//@  ret r
//@end
}
impl<'a> PartialOrdSpecImpl<LiteralRef<'a>> for Literal { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &LiteralRef<'a>) -> Option<Ordering> { Some(lit_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd<LiteralRef<'a>> for Literal {
//@fn literal/ref.rs | impl<'a> PartialOrd<LiteralRef<'a>> for Literal | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<'a> PartialEqSpecImpl<Term> for TermRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Term) -> bool { term_eq(self.v(), o.v()) } }
impl<'a> PartialEq<Term> for TermRef<'a> {
//@fn term/ref.rs | impl PartialEq<Term> for TermRef<'_> | eq
//@  bare
//@  ret r
//@end
}
impl<'a> PartialOrdSpecImpl<Term> for TermRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Term) -> Option<Ordering> { Some(term_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd<Term> for TermRef<'a> {
//@fn term/ref.rs | impl PartialOrd<Term> for TermRef<'_> | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<'a> PartialEqSpecImpl<LocalTerm> for LocalTermRef<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LocalTerm) -> bool { local_eq(self.v(), o.v()) } }
impl<'a> PartialEq<LocalTerm> for LocalTermRef<'a> {
//@fn term/local/ref.rs | impl PartialEq<LocalTerm> for LocalTermRef<'_> | eq
//@  bare
//@  ret r
//@end
}
impl<'a> PartialOrdSpecImpl<LocalTerm> for LocalTermRef<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &LocalTerm) -> Option<Ordering> { Some(local_cmp(self.v(), o.v())) } }
impl<'a> PartialOrd<LocalTerm> for LocalTermRef<'a> {
//@fn term/local/ref.rs | impl PartialOrd<LocalTerm> for LocalTermRef<'_> | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<'a> LiteralRef<'a> {
//@fn literal/ref.rs | impl equivalent::Equivalent<Literal> for LiteralRef<'_> | equivalent
//@  ret r
//@  spec ensures r == lit_eq(self.v(), $1.v())
//@end
}
impl PartialEqSpecImpl<BlankId> for BlankIdBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BlankId) -> bool { self@ == o@ } }
impl PartialEq<BlankId> for BlankIdBuf {
//@fn blankid.rs | impl PartialEq<BlankId> for BlankIdBuf | eq
//@  bare
//@  ret r
//@end
}
impl<'a> PartialEqSpecImpl<&'a BlankId> for BlankIdBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a BlankId) -> bool { self@ == (**o)@ } }
impl<'a> PartialEq<&'a BlankId> for BlankIdBuf {
//@fn blankid.rs | impl<'a> PartialEq<&'a BlankId> for BlankIdBuf | eq
//@  bare
//@  ret r
//@end
}
impl PartialEqSpecImpl<BlankIdBuf> for &BlankId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BlankIdBuf) -> bool { (**self)@ == o@ } }
impl PartialEq<BlankIdBuf> for &BlankId {
//@fn blankid.rs | impl PartialEq<BlankIdBuf> for &BlankId | eq
//@  bare
//@  ret r
//@end
}
impl PartialEqSpecImpl<BlankIdBuf> for BlankId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BlankIdBuf) -> bool { self@ == o@ } }
impl PartialEq<BlankIdBuf> for BlankId {
//@fn blankid.rs | impl PartialEq<BlankIdBuf> for BlankId | eq
//@  bare
//@  ret r
//@end
}
impl PartialEqSpecImpl<str> for BlankId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ } }
impl PartialEq<str> for BlankId {
//@fn blankid.rs | impl PartialEq<str> for BlankId | eq
//@  bare
//@  ret r
//@end
}
