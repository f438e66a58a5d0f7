// ---- comparisons of blank node identifiers: discharged in unit comparisons (generated by tools/mktext.py)
impl PartialEqSpecImpl<BlankId> for BlankId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlankId) -> bool { text_eq(self@, o@) }
}
impl PartialEq<BlankId> for BlankId {
    #[verifier::external_body]
    fn eq(&self, o: &BlankId) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<BlankId> for BlankId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlankId) -> Option<Ordering> { Some(str_cmp(self@, o@)) }
}
impl PartialOrd<BlankId> for BlankId {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &BlankId) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<BlankIdBuf> for BlankId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlankIdBuf) -> bool { text_eq(self@, o@) }
}
impl PartialEq<BlankIdBuf> for BlankId {
    #[verifier::external_body]
    fn eq(&self, o: &BlankIdBuf) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<BlankIdBuf> for BlankId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlankIdBuf) -> Option<Ordering> { Some(str_cmp(self@, o@)) }
}
impl PartialOrd<BlankIdBuf> for BlankId {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &BlankIdBuf) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<BlankId> for BlankIdBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlankId) -> bool { text_eq(self@, o@) }
}
impl PartialEq<BlankId> for BlankIdBuf {
    #[verifier::external_body]
    fn eq(&self, o: &BlankId) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<BlankId> for BlankIdBuf {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlankId) -> Option<Ordering> { Some(str_cmp(self@, o@)) }
}
impl PartialOrd<BlankId> for BlankIdBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &BlankId) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<BlankIdBuf> for BlankIdBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlankIdBuf) -> bool { text_eq(self@, o@) }
}
impl PartialEq<BlankIdBuf> for BlankIdBuf {
    #[verifier::external_body]
    fn eq(&self, o: &BlankIdBuf) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<BlankIdBuf> for BlankIdBuf {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlankIdBuf) -> Option<Ordering> { Some(str_cmp(self@, o@)) }
}
impl PartialOrd<BlankIdBuf> for BlankIdBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &BlankIdBuf) -> (r: Option<Ordering>) { unimplemented!() }
}
impl Eq for BlankId { }
impl OrdSpecImpl for BlankId {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &BlankId) -> Ordering { str_cmp(self@, o@) }
}
impl Ord for BlankId {
    #[verifier::external_body]
    fn cmp(&self, o: &BlankId) -> (r: Ordering) { unimplemented!() }
}
impl Eq for BlankIdBuf { }
impl OrdSpecImpl for BlankIdBuf {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &BlankIdBuf) -> Ordering { str_cmp(self@, o@) }
}
impl Ord for BlankIdBuf {
    #[verifier::external_body]
    fn cmp(&self, o: &BlankIdBuf) -> (r: Ordering) { unimplemented!() }
}
