use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@trust btree_graph
//@include std.rs
//@include iters.rs
//@include btree_graph_core.rs stmt=`triple`
//@endtrust
//@include serde_std.rs KIND=`seq`
//@serde triple.rs | Triple
//@include serde_store.rs T=`Triple` S=`BTreeGraph` F=`dataset/graph/impl/btree_graph.rs`
}
