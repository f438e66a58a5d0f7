// ---- comparisons between owned and borrowed forms (generated by tools/mktext.py)
impl PartialEqSpecImpl<Iri> for Iri {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Iri) -> bool { iri_eq(self@, o@) }
}
impl PartialEq<Iri> for Iri {
    #[verifier::external_body]
    fn eq(&self, o: &Iri) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<Iri> for Iri {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Iri) -> Option<Ordering> { Some(iri_cmp(self@, o@)) }
}
impl PartialOrd<Iri> for Iri {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Iri) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<IriBuf> for Iri {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &IriBuf) -> bool { iri_eq(self@, o@) }
}
impl PartialEq<IriBuf> for Iri {
    #[verifier::external_body]
    fn eq(&self, o: &IriBuf) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<IriBuf> for Iri {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &IriBuf) -> Option<Ordering> { Some(iri_cmp(self@, o@)) }
}
impl PartialOrd<IriBuf> for Iri {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &IriBuf) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<Iri> for IriBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Iri) -> bool { iri_eq(self@, o@) }
}
impl PartialEq<Iri> for IriBuf {
    #[verifier::external_body]
    fn eq(&self, o: &Iri) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<Iri> for IriBuf {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Iri) -> Option<Ordering> { Some(iri_cmp(self@, o@)) }
}
impl PartialOrd<Iri> for IriBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Iri) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<IriBuf> for IriBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &IriBuf) -> bool { iri_eq(self@, o@) }
}
impl PartialEq<IriBuf> for IriBuf {
    #[verifier::external_body]
    fn eq(&self, o: &IriBuf) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<IriBuf> for IriBuf {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &IriBuf) -> Option<Ordering> { Some(iri_cmp(self@, o@)) }
}
impl PartialOrd<IriBuf> for IriBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &IriBuf) -> (r: Option<Ordering>) { unimplemented!() }
}
impl Eq for Iri { }
impl OrdSpecImpl for Iri {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Iri) -> Ordering { iri_cmp(self@, o@) }
}
impl Ord for Iri {
    #[verifier::external_body]
    fn cmp(&self, o: &Iri) -> (r: Ordering) { unimplemented!() }
}
impl Eq for IriBuf { }
impl OrdSpecImpl for IriBuf {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &IriBuf) -> Ordering { iri_cmp(self@, o@) }
}
impl Ord for IriBuf {
    #[verifier::external_body]
    fn cmp(&self, o: &IriBuf) -> (r: Ordering) { unimplemented!() }
}
impl PartialEqSpecImpl<LangTag> for LangTag {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LangTag) -> bool { tag_eq(self@, o@) }
}
impl PartialEq<LangTag> for LangTag {
    #[verifier::external_body]
    fn eq(&self, o: &LangTag) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<LangTag> for LangTag {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &LangTag) -> Option<Ordering> { Some(tag_cmp(self@, o@)) }
}
impl PartialOrd<LangTag> for LangTag {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &LangTag) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<LangTagBuf> for LangTag {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LangTagBuf) -> bool { tag_eq(self@, o@) }
}
impl PartialEq<LangTagBuf> for LangTag {
    #[verifier::external_body]
    fn eq(&self, o: &LangTagBuf) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<LangTagBuf> for LangTag {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &LangTagBuf) -> Option<Ordering> { Some(tag_cmp(self@, o@)) }
}
impl PartialOrd<LangTagBuf> for LangTag {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &LangTagBuf) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<LangTag> for LangTagBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LangTag) -> bool { tag_eq(self@, o@) }
}
impl PartialEq<LangTag> for LangTagBuf {
    #[verifier::external_body]
    fn eq(&self, o: &LangTag) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<LangTag> for LangTagBuf {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &LangTag) -> Option<Ordering> { Some(tag_cmp(self@, o@)) }
}
impl PartialOrd<LangTag> for LangTagBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &LangTag) -> (r: Option<Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl<LangTagBuf> for LangTagBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LangTagBuf) -> bool { tag_eq(self@, o@) }
}
impl PartialEq<LangTagBuf> for LangTagBuf {
    #[verifier::external_body]
    fn eq(&self, o: &LangTagBuf) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<LangTagBuf> for LangTagBuf {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &LangTagBuf) -> Option<Ordering> { Some(tag_cmp(self@, o@)) }
}
impl PartialOrd<LangTagBuf> for LangTagBuf {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &LangTagBuf) -> (r: Option<Ordering>) { unimplemented!() }
}
impl Eq for LangTag { }
impl OrdSpecImpl for LangTag {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &LangTag) -> Ordering { tag_cmp(self@, o@) }
}
impl Ord for LangTag {
    #[verifier::external_body]
    fn cmp(&self, o: &LangTag) -> (r: Ordering) { unimplemented!() }
}
impl Eq for LangTagBuf { }
impl OrdSpecImpl for LangTagBuf {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &LangTagBuf) -> Ordering { tag_cmp(self@, o@) }
}
impl Ord for LangTagBuf {
    #[verifier::external_body]
    fn cmp(&self, o: &LangTagBuf) -> (r: Ordering) { unimplemented!() }
}
