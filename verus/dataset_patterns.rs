use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust indexed_dataset
//@include indexed_dataset_core.rs
//@endtrust
//@include dataset_patterns_core.rs
}
