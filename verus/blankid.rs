use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::slice::SliceIndexSpec;
use vstd::std_specs::iter::IteratorSpec;
verus! {
global size_of usize == 8;
//@include decimal.rs
//@include fmt.rs
//@include blankid_core.rs
//@include generator_blank.rs
}
