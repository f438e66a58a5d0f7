use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@include indexed_dataset_core.rs
//@include store_clone.rs S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs` T=`Quad` tf=`quad.rs` G=`, X: Clone` g=`, X` SET=`impl Clone for BTreeSet<usize> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } } impl<T: Clone> Clone for Option<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }`
}
