use vstd::prelude::*;
use vstd::string::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::Deref;
use vstd::std_specs::convert::FromSpecImpl;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec, PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
verus! {
global size_of usize == 8;
//@include text_std.rs
//@include text_deps.rs
//@include text_cmp.rs
//@item blankid.rs | BlankId
//@item blankid.rs | BlankIdBuf
impl BlankId { pub open spec fn view(&self) -> Seq<char> { self.0@ } }
impl BlankIdBuf { pub open spec fn view(&self) -> Seq<char> { self.0@ } 
    // contract discharged in unit blankid, for valid identifiers
    #[verifier::external_body]
    pub fn as_blank_id_ref(&self) -> (r: &BlankId) ensures r@ == self@ { unimplemented!() } }
impl Deref for BlankIdBuf { type Target = BlankId;
    #[verifier::external_body]
    fn deref(&self) -> (r: &BlankId) ensures r@ == self@ { unimplemented!() } }
impl Borrow<BlankId> for BlankIdBuf {
    #[verifier::external_body]
    fn borrow(&self) -> &BlankId { unimplemented!() } }
impl ToOwned for BlankId { type Owned = BlankIdBuf;
    #[verifier::external_body]
    fn to_owned(&self) -> (r: BlankIdBuf) ensures r@ == self@ { unimplemented!() } }
//@include terms_types.rs
//@include comparisons_std.rs
//@include comparisons_core.rs
}
