use vstd::prelude::*;
use vstd::string::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust btree_dataset
//@include std.rs
//@include iters.rs
//@include btree_dataset_core.rs stmt=`quad`
//@endtrust
//@include decimal.rs
//@include fmt.rs
//@include cat.rs
//@always broadcast use {cat3, cat1, cat0};
//@trust display
//@include display_trait.rs
//@include display_quad.rs
//@endtrust
//@include display_store.rs T=`Quad` S=`BTreeDataset` F=`dataset/impl/btree_dataset.rs`
}
