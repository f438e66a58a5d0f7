use vstd::prelude::*;
use vstd::multiset::*;
use vstd::seq_lib::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
verus! {
global size_of usize == 8;
//@include isomorphism_std.rs
//@include isomorphism_core.rs
//@include isomorphism_laws.rs
}
