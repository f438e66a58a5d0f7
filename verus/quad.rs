//@include quad_type.rs
//@include quad_val.rs
