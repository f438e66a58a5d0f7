use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@include std.rs
//@include iters.rs
//@include btree_dataset_core.rs stmt=`quad`
//@include store_clone.rs S=`BTreeDataset` F=`dataset/impl/btree_dataset.rs` T=`Quad` tf=`quad.rs` G=`, X: Clone` g=`, X` SET=` impl<T: Clone> Clone for Option<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }`
}
