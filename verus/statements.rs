use vstd::prelude::*;
use vstd::string::*;
use vstd::pervasive::cloned;
use vstd::utf8::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::Deref;
use vstd::std_specs::convert::FromSpecImpl;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec, PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
verus! {
global size_of usize == 8;
pub open spec fn text_eq(a: Seq<char>, b: Seq<char>) -> bool { a == b }
//@include text_std.rs
//@include text_deps.rs
//@include text_cmp.rs
//@include terms_blank.rs
//@include blank_cmp.rs
//@include terms_types.rs
//@trust terms
//@include terms_core.rs
//@endtrust
//@include statements_std.rs
//@item triple.rs | Triple
//@item quad.rs | Quad
//@include statements_core.rs
//@include statements_laws.rs
}
