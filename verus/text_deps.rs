// ---- iref and langtag: a borrowed and an owned form with one text
#[repr(transparent)]
pub struct Iri(pub str);
pub struct IriBuf(pub String);
pub struct LangTag(pub str);
pub struct LangTagBuf(pub String);
impl Iri { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl IriBuf { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl LangTag { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl LangTagBuf { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl Deref for IriBuf { type Target = Iri;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Iri) ensures r@ == self@ { unimplemented!() } }
impl Borrow<Iri> for IriBuf {
    #[verifier::external_body]
    fn borrow(&self) -> &Iri { unimplemented!() } }
impl ToOwned for Iri { type Owned = IriBuf;
    #[verifier::external_body]
    fn to_owned(&self) -> (r: IriBuf) ensures r@ == self@ { unimplemented!() } }
impl Deref for LangTagBuf { type Target = LangTag;
    #[verifier::external_body]
    fn deref(&self) -> (r: &LangTag) ensures r@ == self@ { unimplemented!() } }
impl Borrow<LangTag> for LangTagBuf {
    #[verifier::external_body]
    fn borrow(&self) -> &LangTag { unimplemented!() } }
impl ToOwned for LangTag { type Owned = LangTagBuf;
    #[verifier::external_body]
    fn to_owned(&self) -> (r: LangTagBuf) ensures r@ == self@ { unimplemented!() } }
impl Iri {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl IriBuf {
    #[verifier::external_body]
    pub fn as_iri(&self) -> (r: &Iri) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl LangTag {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl LangTagBuf {
    #[verifier::external_body]
    pub fn as_lang_tag(&self) -> (r: &LangTag) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn cow_iri<'a>(c: Cow<'a, Iri>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
pub open spec fn cow_tag<'a>(c: Cow<'a, LangTag>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
pub open spec fn cow_blank<'a>(c: Cow<'a, BlankId>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
// equality and order are those of iref and langtag, which read the text only; they agree on owned and borrowed forms
pub uninterp spec fn iri_eq(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn tag_eq(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn iri_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
pub uninterp spec fn tag_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
pub uninterp spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
