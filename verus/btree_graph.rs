use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@include std.rs
//@include iters.rs
//@include btree_graph_core.rs stmt=`triple`
//@include store_clone.rs S=`BTreeGraph` F=`dataset/graph/impl/btree_graph.rs` T=`Triple` tf=`triple.rs` G=`` g=`` SET=``
}
