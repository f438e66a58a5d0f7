use vstd::prelude::*;
use vstd::std_specs::convert::FromSpecImpl;
use std::convert::Infallible;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@trust patterns
//@include patterns_core.rs
//@endtrust
//@include queries_core.rs
}
