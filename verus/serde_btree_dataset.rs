use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@trust btree_dataset
//@include std.rs
//@include iters.rs
//@include btree_dataset_core.rs stmt=`quad`
//@endtrust
//@include serde_std.rs KIND=`seq`
//@serde quad.rs | Quad
//@include serde_store.rs T=`Quad` S=`BTreeDataset` F=`dataset/impl/btree_dataset.rs`
}
