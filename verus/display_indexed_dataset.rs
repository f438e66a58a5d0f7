use vstd::prelude::*;
use vstd::string::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust indexed_dataset
//@include indexed_dataset_core.rs
//@endtrust
//@include decimal.rs
//@include fmt.rs
//@include cat.rs
//@always broadcast use {cat3, cat1, cat0};
//@trust display
//@include display_trait.rs
//@include display_quad.rs
//@endtrust
//@include display_store.rs T=`Quad` S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs`
}
