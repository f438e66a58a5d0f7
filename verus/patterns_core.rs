pub mod triple {
    pub mod canonical {
        use crate::*;
        use vstd::prelude::*;
        use vstd::std_specs::cmp::*;
//@include patterns_triple.rs
    }
    pub use canonical::CanonicalTriplePattern;
}
pub mod quad {
    pub mod canonical {
        use crate::*;
        use vstd::prelude::*;
        use vstd::std_specs::cmp::*;
//@include patterns_quad.rs
    }
    pub use canonical::CanonicalQuadPattern;
}
pub use triple::CanonicalTriplePattern;
pub use quad::CanonicalQuadPattern;
//@include patterns_base.rs
//@include patterns_from.rs
// ---- the constraints on the components determine the pattern
pub proof fn triple_determined<T>(a: CanonicalTriplePattern<T>, b: CanonicalTriplePattern<T>)
    ensures (a == b) == (a.sp() == b.sp() && a.pp() == b.pp() && a.op() == b.op())
{}
pub proof fn quad_determined<T>(a: CanonicalQuadPattern<T>, b: CanonicalQuadPattern<T>)
    ensures (a == b) == (a.sp() == b.sp() && a.pp() == b.pp() && a.op() == b.op() && a.gp() == b.gp())
{}
