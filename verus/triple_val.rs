pub open spec fn val<R>(res: RMap<R>, t: Triple<usize>) -> Triple<R> { Triple(res[t.0].value, res[t.1].value, res[t.2].value) }
pub open spec fn tin<R>(res: RMap<R>, t: Triple<usize>) -> bool { res.dom().contains(t.0) && res.dom().contains(t.1) && res.dom().contains(t.2) }
pub open spec fn vcomp<R>(t: Triple<R>, c: int) -> Option<R> { if c == 0 { Some(t.0) } else if c == 1 { Some(t.1) } else if c == 2 { Some(t.2) } else { None } }
pub open spec fn mentions<R>(t: Triple<R>, v: R) -> bool { t.0 == v || t.1 == v || t.2 == v }
