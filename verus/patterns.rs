use vstd::prelude::*;
use vstd::std_specs::convert::FromSpecImpl;
verus! {
global size_of usize == 8;
//@include patterns_core.rs
//@include patterns_from_vars.rs
//@include patterns_role.rs
//@include patterns_laws.rs
}
