pub open spec fn gval<R>(res: RMap<R>, g: Option<usize>) -> Option<R> { match g { Some(g) => Some(res[g].value), None => None } }
pub open spec fn val<R>(res: RMap<R>, t: Quad<usize>) -> Quad<R> { Quad(res[t.0].value, res[t.1].value, res[t.2].value, gval(res, t.3)) }
pub open spec fn tin<R>(res: RMap<R>, t: Quad<usize>) -> bool {
    res.dom().contains(t.0) && res.dom().contains(t.1) && res.dom().contains(t.2) && (t.3 is Some ==> res.dom().contains(t.3->0))
}
pub open spec fn vcomp<R>(t: Quad<R>, c: int) -> Option<R> { if c == 0 { Some(t.0) } else if c == 1 { Some(t.1) } else if c == 2 { Some(t.2) } else if c == 3 { t.3 } else { None } }
pub open spec fn mentions<R>(t: Quad<R>, v: R) -> bool { t.0 == v || t.1 == v || t.2 == v || t.3 == Some(v) }
