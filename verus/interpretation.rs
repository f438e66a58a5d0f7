use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::Deref;
use vstd::std_specs::convert::FromSpecImpl;
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
verus! {
global size_of usize == 8;
pub open spec fn text_eq(a: Seq<char>, b: Seq<char>) -> bool { a == b }
//@include text_std.rs
//@include text_deps.rs
//@include text_cmp.rs
//@include terms_blank.rs
//@include blank_cmp.rs
//@include terms_types.rs
//@trust terms
//@include terms_core.rs
//@endtrust
//@include interpretation_std.rs
//@include interpretation_core.rs
}
