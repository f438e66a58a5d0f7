use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@trust indexed_dataset
//@include indexed_dataset_core.rs
//@endtrust
//@include serde_std.rs KIND=`seq`
//@serde quad.rs | Quad
//@include serde_store.rs T=`Quad` S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs`
}
