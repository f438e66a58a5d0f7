use vstd::prelude::*;
use vstd::string::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust btree_graph
//@include std.rs
//@include iters.rs
//@include btree_graph_core.rs stmt=`triple`
//@endtrust
//@include decimal.rs
//@include fmt.rs
//@include cat.rs
//@always broadcast use {cat3, cat1, cat0};
//@trust display
//@include display_trait.rs
//@include display_triple.rs
//@endtrust
//@include display_store.rs T=`Triple` S=`BTreeGraph` F=`dataset/graph/impl/btree_graph.rs`
}
