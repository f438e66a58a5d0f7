// ---- std: conversions. Into::into calls From::from (vstd); what is assumed of std's own impls:
pub assume_specification<T> [<T as From<T>>::from] (t: T) -> (r: T) ensures r == t;
pub assume_specification<'a> [<String as From<&'a str>>::from] (t: &str) -> (r: String) ensures r@ == t@;
// o is what to_owned makes of b: the same text
pub uninterp spec fn owns<B: ?Sized + ToOwned>(b: &B, o: <B as ToOwned>::Owned) -> bool;
pub broadcast axiom fn owns_str(b: &str, o: String) ensures #[trigger] owns::<str>(b, o) ==> o@ == b@;
pub broadcast axiom fn owns_iri(b: &Iri, o: IriBuf) ensures #[trigger] owns::<Iri>(b, o) ==> o@ == b@;
pub broadcast axiom fn owns_tag(b: &LangTag, o: LangTagBuf) ensures #[trigger] owns::<LangTag>(b, o) ==> o@ == b@;
pub broadcast axiom fn owns_blank(b: &BlankId, o: BlankIdBuf) ensures #[trigger] owns::<BlankId>(b, o) ==> o@ == b@;
//@always broadcast use {owns_str, owns_iri, owns_tag, owns_blank, cow_view_str, cow_view_iri, cow_view_tag, cow_view_blank};
pub assume_specification [<String as AsRef<[u8]>>::as_ref] (s: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification [<str as AsRef<[u8]>>::as_ref] (s: &str) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification [<String as AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;
pub open spec fn cow_str<'a>(c: Cow<'a, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
// Deref of Cow: the borrowed form, or what the owned form derefs to: the same text
pub uninterp spec fn cow_view<'a, B: ?Sized + ToOwned>(c: &Cow<'a, B>, b: &B) -> bool;
pub broadcast axiom fn cow_view_str(c: &Cow<str>, b: &str) ensures #[trigger] cow_view::<str>(c, b) ==> b@ == cow_str(*c);
pub broadcast axiom fn cow_view_iri(c: &Cow<Iri>, b: &Iri) ensures #[trigger] cow_view::<Iri>(c, b) ==> b@ == cow_iri(*c);
pub broadcast axiom fn cow_view_tag(c: &Cow<LangTag>, b: &LangTag) ensures #[trigger] cow_view::<LangTag>(c, b) ==> b@ == cow_tag(*c);
pub broadcast axiom fn cow_view_blank(c: &Cow<BlankId>, b: &BlankId) ensures #[trigger] cow_view::<BlankId>(c, b) ==> b@ == cow_blank(*c);
// std::borrow::Cow
#[verifier::reject_recursive_types(B)]
pub enum Cow<'a, B: ?Sized + ToOwned> { Borrowed(&'a B), Owned(<B as ToOwned>::Owned) }
impl<'a, B: ?Sized + ToOwned> Cow<'a, B> {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: <B as ToOwned>::Owned)
        ensures match self { Cow::Owned(o) => r == o, Cow::Borrowed(b) => owns(b, r) } { unimplemented!() }
}
impl<'a, B: ?Sized + ToOwned> Deref for Cow<'a, B> { type Target = B;
    #[verifier::external_body]
    fn deref(&self) -> (r: &B) ensures cow_view(self, r) { unimplemented!() } }
impl<'a> FromSpecImpl<&'a str> for Cow<'a, str> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a str) -> Self; }
impl<'a> From<&'a str> for Cow<'a, str> {
    #[verifier::external_body]
    fn from(t: &'a str) -> (r: Self) ensures r == Cow::<'a, str>::Borrowed(t) { unimplemented!() } }
impl<'a> FromSpecImpl<&'a String> for Cow<'a, str> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a String) -> Self; }
impl<'a> From<&'a String> for Cow<'a, str> {
    #[verifier::external_body]
    fn from(t: &'a String) -> (r: Self) ensures cow_str(r) == t@ { unimplemented!() } }
impl<'a> FromSpecImpl<String> for Cow<'a, str> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: String) -> Self; }
impl<'a> From<String> for Cow<'a, str> {
    #[verifier::external_body]
    fn from(t: String) -> (r: Self) ensures cow_str(r) == t@ { unimplemented!() } }

impl<'a> FromSpecImpl<Cow<'a, str>> for String { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Cow<'a, str>) -> Self; }
impl<'a> From<Cow<'a, str>> for String {
    #[verifier::external_body]
    fn from(t: Cow<'a, str>) -> (r: Self) ensures r@ == cow_str(t) { unimplemented!() } }
