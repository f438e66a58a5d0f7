use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@include indexed_graph_core.rs
//@include store_clone.rs S=`IndexedBTreeGraph` F=`dataset/graph/impl/indexed_btree_graph.rs` T=`Triple` tf=`triple.rs` G=`` g=`` SET=`impl Clone for BTreeSet<usize> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }`
}
