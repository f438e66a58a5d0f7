// ---- std: comparisons of strings, by their text
pub broadcast axiom fn string_eq(a: &String, b: &String) ensures #[trigger] <String as PartialEqSpec>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn string_str_eq(a: &String, b: &&str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn str_string_eq(a: &&str, b: &String) ensures #[trigger] <&str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn str_partial_cmp(a: &str, b: &str) ensures #[trigger] <str as PartialOrdSpec>::partial_cmp_spec(a, b) == Some(str_cmp(a@, b@));
pub broadcast axiom fn string_partial_cmp(a: &String, b: &String) ensures #[trigger] <String as PartialOrdSpec>::partial_cmp_spec(a, b) == Some(str_cmp(a@, b@));
pub broadcast axiom fn str_ord(a: &str, b: &str) ensures #[trigger] <str as OrdSpec>::cmp_spec(a, b) == str_cmp(a@, b@);
pub broadcast axiom fn string_ord(a: &String, b: &String) ensures #[trigger] <String as OrdSpec>::cmp_spec(a, b) == str_cmp(a@, b@);
pub axiom fn text_obeys() ensures <String as PartialEqSpec>::obeys_eq_spec(), <String as PartialEqSpec<&str>>::obeys_eq_spec(), <&str as PartialEqSpec<String>>::obeys_eq_spec(),
    <str as PartialOrdSpec>::obeys_partial_cmp_spec(), <String as PartialOrdSpec>::obeys_partial_cmp_spec(), <str as OrdSpec>::obeys_cmp_spec(), <String as OrdSpec>::obeys_cmp_spec();
//@always broadcast use {string_eq, string_str_eq, str_string_eq, str_partial_cmp, string_partial_cmp, str_ord, string_ord}; text_obeys();
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering) ensures r == (if a == Ordering::Equal { b } else { a });
// ---- langtag compares a reference with a tag too
impl<'a> PartialEqSpecImpl<LangTag> for &'a LangTag { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LangTag) -> bool { tag_eq((**self)@, o@) } }
impl<'a> PartialEq<LangTag> for &'a LangTag {
    #[verifier::external_body]
    fn eq(&self, o: &LangTag) -> (r: bool) { unimplemented!() } }
// ---- Hash and Hasher: a hasher is characterised by what it was fed
pub enum Fed { Index(int), Text(Seq<char>), Other(int) }
pub trait Hasher {
    spec fn fed(&self) -> Seq<Fed>;
    fn write_isize(&mut self, i: isize) ensures final(self).fed() == old(self).fed() + seq![Fed::Index(i as int)];
}
pub trait Hash {
    spec fn fed(&self) -> Seq<Fed>;
    fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.fed();
}
pub open spec fn str_hash(s: Seq<char>) -> Seq<Fed> { seq![Fed::Text(s)] }
pub uninterp spec fn iri_hash(s: Seq<char>) -> Seq<Fed>;
pub uninterp spec fn tag_hash(s: Seq<char>) -> Seq<Fed>;
impl<'a, T: Hash + ?Sized> Hash for &'a T { open spec fn fed(&self) -> Seq<Fed> { (**self).fed() }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for str { open spec fn fed(&self) -> Seq<Fed> { str_hash(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for String { open spec fn fed(&self) -> Seq<Fed> { str_hash(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for Iri { open spec fn fed(&self) -> Seq<Fed> { iri_hash(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for IriBuf { open spec fn fed(&self) -> Seq<Fed> { iri_hash(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for LangTag { open spec fn fed(&self) -> Seq<Fed> { tag_hash(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for LangTagBuf { open spec fn fed(&self) -> Seq<Fed> { tag_hash(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<'a> Hash for Cow<'a, str> { open spec fn fed(&self) -> Seq<Fed> { str_hash(cow_str(*self)) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<'a> Hash for Cow<'a, Iri> { open spec fn fed(&self) -> Seq<Fed> { iri_hash(cow_iri(*self)) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<'a> Hash for Cow<'a, LangTag> { open spec fn fed(&self) -> Seq<Fed> { tag_hash(cow_tag(*self)) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
// ---- Cow compares as what it holds
impl<'a> PartialEqSpecImpl for Cow<'a, str> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { text_eq(cow_str(*self), cow_str(*o)) } }
impl<'a> PartialEq for Cow<'a, str> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Eq for Cow<'a, str> { }
impl<'a> PartialOrdSpecImpl for Cow<'a, str> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(str_cmp(cow_str(*self), cow_str(*o))) } }
impl<'a> PartialOrd for Cow<'a, str> {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { unimplemented!() } }
impl<'a> OrdSpecImpl for Cow<'a, str> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { str_cmp(cow_str(*self), cow_str(*o)) } }
impl<'a> Ord for Cow<'a, str> {
    #[verifier::external_body]
    fn cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl<'a> PartialEqSpecImpl for Cow<'a, Iri> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { iri_eq(cow_iri(*self), cow_iri(*o)) } }
impl<'a> PartialEq for Cow<'a, Iri> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Eq for Cow<'a, Iri> { }
impl<'a> PartialOrdSpecImpl for Cow<'a, Iri> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(iri_cmp(cow_iri(*self), cow_iri(*o))) } }
impl<'a> PartialOrd for Cow<'a, Iri> {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { unimplemented!() } }
impl<'a> OrdSpecImpl for Cow<'a, Iri> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { iri_cmp(cow_iri(*self), cow_iri(*o)) } }
impl<'a> Ord for Cow<'a, Iri> {
    #[verifier::external_body]
    fn cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl<'a> PartialEqSpecImpl for Cow<'a, LangTag> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { tag_eq(cow_tag(*self), cow_tag(*o)) } }
impl<'a> PartialEq for Cow<'a, LangTag> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> Eq for Cow<'a, LangTag> { }
impl<'a> PartialOrdSpecImpl for Cow<'a, LangTag> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(tag_cmp(cow_tag(*self), cow_tag(*o))) } }
impl<'a> PartialOrd for Cow<'a, LangTag> {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { unimplemented!() } }
impl<'a> OrdSpecImpl for Cow<'a, LangTag> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { tag_cmp(cow_tag(*self), cow_tag(*o)) } }
impl<'a> Ord for Cow<'a, LangTag> {
    #[verifier::external_body]
    fn cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub open spec fn text_eq(a: Seq<char>, b: Seq<char>) -> bool { a == b }
// ---- iref and langtag compare owned with borrowed
impl<'a> PartialEqSpecImpl<&'a Iri> for IriBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a Iri) -> bool { iri_eq(self@, (**o)@) } }
impl<'a> PartialEq<&'a Iri> for IriBuf {
    #[verifier::external_body]
    fn eq(&self, o: &&'a Iri) -> (r: bool) { unimplemented!() } }
impl<'a> PartialOrdSpecImpl<&'a Iri> for IriBuf { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &&'a Iri) -> Option<Ordering> { Some(iri_cmp(self@, (**o)@)) } }
impl<'a> PartialOrd<&'a Iri> for IriBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &&'a Iri) -> (r: Option<Ordering>) { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a LangTag> for LangTagBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a LangTag) -> bool { tag_eq(self@, (**o)@) } }
impl<'a> PartialEq<&'a LangTag> for LangTagBuf {
    #[verifier::external_body]
    fn eq(&self, o: &&'a LangTag) -> (r: bool) { unimplemented!() } }
impl<'a> PartialOrdSpecImpl<&'a LangTag> for LangTagBuf { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &&'a LangTag) -> Option<Ordering> { Some(tag_cmp(self@, (**o)@)) } }
impl<'a> PartialOrd<&'a LangTag> for LangTagBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &&'a LangTag) -> (r: Option<Ordering>) { unimplemented!() } }
