use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::Deref;
use vstd::std_specs::convert::FromSpecImpl;
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
use vstd::std_specs::iter::IteratorSpec;
verus! {
global size_of usize == 8;
pub open spec fn text_eq(a: Seq<char>, b: Seq<char>) -> bool { a == b }
//@include text_std.rs
//@include text_deps.rs
//@include text_cmp.rs
//@include terms_blank.rs
//@include blank_cmp.rs
//@trust terms
//@include terms_types.rs
//@include terms_core.rs
//@endtrust
//@include decimal.rs
//@include fmt.rs
//@include display_deps.rs
//@include cat.rs
//@include label.rs
//@include display_trait.rs
//@include display_core.rs
//@item triple.rs | Triple
//@include display_triple.rs
//@item quad.rs | Quad
//@include display_quad.rs
//@include display_laws.rs
}
