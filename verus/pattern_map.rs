use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
global size_of usize == 8;
//@include hash_std.rs
//@item triple.rs | Triple | #[derive(Clone, Copy)] | ?`<S = LocalTerm,` => `<S,`
impl<S, P, O> Triple<S, P, O> {
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | subject
//@ ret r
//@ spec ensures *r == self.0
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | predicate
//@ ret r
//@ spec ensures *r == self.1
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | object
//@ ret r
//@ spec ensures *r == self.2
//@end
}
//@trust graph_patterns
//@include triple_pattern.rs
//@endtrust
//@always broadcast use {times_add, skip_add, empty_add, no_times, ahead_skip};
//@include pattern_map_core.rs
//@include pattern_map_laws.rs
}
