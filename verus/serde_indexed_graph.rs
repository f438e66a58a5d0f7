use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@trust indexed_graph
//@include indexed_graph_core.rs
//@endtrust
//@include serde_std.rs KIND=`seq`
//@serde triple.rs | Triple
//@include serde_store.rs T=`Triple` S=`IndexedBTreeGraph` F=`dataset/graph/impl/indexed_btree_graph.rs`
}
