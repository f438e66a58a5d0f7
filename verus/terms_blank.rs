// ---- blank node identifiers: contracts discharged in unit blankid, for valid identifiers
pub struct BlankId(pub str);
pub struct BlankIdBuf(pub String);
impl BlankId { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl BlankIdBuf { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl Deref for BlankIdBuf { type Target = BlankId;
    #[verifier::external_body]
    fn deref(&self) -> (r: &BlankId) ensures r@ == self@ { unimplemented!() } }
impl Borrow<BlankId> for BlankIdBuf {
    #[verifier::external_body]
    fn borrow(&self) -> &BlankId { unimplemented!() } }
impl ToOwned for BlankId { type Owned = BlankIdBuf;
    #[verifier::external_body]
    fn to_owned(&self) -> (r: BlankIdBuf) ensures r@ == self@ { unimplemented!() } }
