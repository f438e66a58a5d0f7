//@include triple_type.rs
//@include triple_val.rs
