// ---- what a store is, and how each elementary change preserves it. Ghost code only.
pub open spec fn scmp<R: Ord>(a: @T@<R>, b: @T@<R>) -> Ordering {
    if a == b { Ordering::Equal } else if slt(a, b) { Ordering::Less } else { Ordering::Greater }
}
pub proof fn slt_laws<R: Ord>()
    ensures
        forall|a: @T@<R>| !#[trigger] slt(a, a),
        forall|a: @T@<R>, b: @T@<R>, c: @T@<R>| #[trigger] slt(a, b) && #[trigger] slt(b, c) ==> slt(a, c),
        forall|a: @T@<R>, b: @T@<R>| #![trigger slt(a, b)] #![trigger slt(b, a)] a == b || slt(a, b) || slt(b, a),
{ R::order_laws(); }
pub type RMap<R> = Map<usize, Resource<R>>;
pub type TMap = Map<usize, @T@<usize>>;
pub open spec fn covers(ix: Seq<usize>, dom: Set<usize>) -> bool {
    &&& forall|i: int| 0 <= i < ix.len() ==> dom.contains(#[trigger] ix[i])
    &&& forall|k: usize| #[trigger] dom.contains(k) ==> ix.contains(k)
}
// The resource index lists exactly the stored resources, in strictly increasing order.
#[verifier::opaque]
pub open spec fn rix<R: Ord>(ix: Seq<usize>, res: RMap<R>) -> bool {
    &&& covers(ix, res.dom())
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> (#[trigger] res[ix[i]].value).olt(#[trigger] res[ix[j]].value)
}
// Every stored triple refers to stored resources.
#[verifier::opaque]
pub open spec fn tins<R>(res: RMap<R>, tr: TMap) -> bool {
    forall|i: usize| tr.dom().contains(i) ==> tin(res, #[trigger] tr[i])
}
// The triple index lists exactly the stored triples, in strictly increasing order.
#[verifier::opaque]
pub open spec fn tix<R: Ord>(ix: Seq<usize>, res: RMap<R>, tr: TMap) -> bool {
    &&& covers(ix, tr.dom())
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> slt(val(res, #[trigger] tr[ix[i]]), val(res, #[trigger] tr[ix[j]]))
}
// No stored statement refers to r.
#[verifier::opaque]
pub open spec fn unused(tr: TMap, r: usize) -> bool { forall|i: usize| tr.dom().contains(i) ==> !uses(#[trigger] tr[i], r) }
pub open spec fn uses(t: @T@<usize>, r: usize) -> bool { comp(t, 0) == Some(r) || comp(t, 1) == Some(r) || comp(t, 2) == Some(r) || comp(t, 3) == Some(r) }
#[verifier::opaque]
pub open spec fn holds<R>(res: RMap<R>, tr: TMap, u: @T@<R>) -> bool {
    exists|i: usize| tr.dom().contains(i) && val(res, #[trigger] tr[i]) == u
}
pub open spec fn keeps<R>(res: RMap<R>, k: usize, v: Resource<R>) -> bool { res.dom().contains(k) ==> v.value == res[k].value }
// ---- what the predicates give
pub proof fn rix_use<R: Ord>()
    ensures
        forall|ix: Seq<usize>, res: RMap<R>, i: int| #[trigger] rix(ix, res) && 0 <= i < ix.len() ==> res.dom().contains(#[trigger] ix[i]),
        forall|ix: Seq<usize>, res: RMap<R>, i: int, j: int| #[trigger] rix(ix, res) && 0 <= i < j < ix.len() ==> res[#[trigger] ix[i]].value.olt(res[#[trigger] ix[j]].value),
        forall|ix: Seq<usize>, res: RMap<R>, k: usize| #[trigger] rix(ix, res) && #[trigger] res.dom().contains(k) ==> exists|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == k,
{ reveal(rix); }
pub proof fn tix_use<R: Ord>()
    ensures
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, i: int| #[trigger] tix(ix, res, tr) && 0 <= i < ix.len() ==> tr.dom().contains(#[trigger] ix[i]),
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, i: int, j: int| #[trigger] tix(ix, res, tr) && 0 <= i < j < ix.len() ==> slt(val(res, tr[#[trigger] ix[i]]), val(res, tr[#[trigger] ix[j]])),
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize| #[trigger] tix(ix, res, tr) && #[trigger] tr.dom().contains(k) ==> exists|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == k,
{ reveal(tix); }
pub proof fn tins_use<R>()
    ensures
        forall|res: RMap<R>, tr: TMap, i: usize| #[trigger] tins(res, tr) && #[trigger] tr.dom().contains(i) ==> tin(res, tr[i]),
        forall|res: RMap<R>, tr: TMap, r: usize| #[trigger] tins(res, tr) && !res.dom().contains(r) ==> #[trigger] unused(tr, r),
{ reveal(tins); reveal(unused); }
pub proof fn holds_use<R>()
    ensures
        forall|res: RMap<R>, tr: TMap, i: usize| tr.dom().contains(i) ==> #[trigger] holds(res, tr, val(res, tr[i])),
        forall|res: RMap<R>, tr: TMap, u: @T@<R>| #[trigger] holds(res, tr, u) ==> exists|i: usize| #[trigger] tr.dom().contains(i) && val(res, tr[i]) == u,
{ reveal(holds); }
// ---- how each elementary change preserves them
pub proof fn res_insert_laws<R: Ord>()
    ensures
        // same value, other bookkeeping
        forall|ix: Seq<usize>, res: RMap<R>, k: usize, v: Resource<R>| rix(ix, res) && res.dom().contains(k) && keeps(res, k, v) ==> #[trigger] rix(ix, res.insert(k, v)),
        // new value, at its place in the order
        forall|ix: Seq<usize>, res: RMap<R>, k: usize, v: Resource<R>, p: int| rix(ix, res) && !res.dom().contains(k) && 0 <= p <= ix.len()
            && (forall|i: int| 0 <= i < p ==> res[#[trigger] ix[i]].value.olt(v.value))
            && (forall|i: int| p <= i < ix.len() ==> v.value.olt(res[#[trigger] ix[i]].value))
            ==> #[trigger] rix(ix.insert(p, k), res.insert(k, v)),
        forall|res: RMap<R>, tr: TMap, k: usize, v: Resource<R>| tins(res, tr) ==> #[trigger] tins(res.insert(k, v), tr),
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize, v: Resource<R>| tix(ix, res, tr) && tins(res, tr) && keeps(res, k, v) ==> #[trigger] tix(ix, res.insert(k, v), tr),
        forall|res: RMap<R>, tr: TMap, k: usize, v: Resource<R>, u: @T@<R>| tins(res, tr) && keeps(res, k, v) ==> #[trigger] holds(res.insert(k, v), tr, u) == holds(res, tr, u),
{
    reveal(rix); reveal(tins); reveal(tix);
    assert forall|ix: Seq<usize>, res: RMap<R>, k: usize, v: Resource<R>, p: int| rix(ix, res) && !res.dom().contains(k) && 0 <= p <= ix.len()
            && (forall|i: int| 0 <= i < p ==> res[#[trigger] ix[i]].value.olt(v.value))
            && (forall|i: int| p <= i < ix.len() ==> v.value.olt(res[#[trigger] ix[i]].value))
            implies #[trigger] rix(ix.insert(p, k), res.insert(k, v)) by {
        ix_insert(ix, res.dom(), p, k);
    }
    assert forall|res: RMap<R>, tr: TMap, k: usize, v: Resource<R>, u: @T@<R>| tins(res, tr) && keeps(res, k, v) implies #[trigger] holds(res.insert(k, v), tr, u) == holds(res, tr, u) by {
        reveal(holds);
        assert forall|i: usize| tr.dom().contains(i) implies val(res.insert(k, v), #[trigger] tr[i]) == val(res, tr[i]) by { assert(tin(res, tr[i])); }
    }
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize, v: Resource<R>| tix(ix, res, tr) && tins(res, tr) && keeps(res, k, v) implies #[trigger] tix(ix, res.insert(k, v), tr) by {
        assert forall|i: usize| tr.dom().contains(i) implies val(res.insert(k, v), #[trigger] tr[i]) == val(res, tr[i]) by { assert(tin(res, tr[i])); }
    }
}
proof fn ix_insert(ix: Seq<usize>, dom: Set<usize>, p: int, k: usize)
    requires covers(ix, dom), !dom.contains(k), 0 <= p <= ix.len()
    ensures covers(ix.insert(p, k), dom.insert(k))
{
    let b = ix.insert(p, k);
    assert(b[p] == k);
    assert forall|x: usize| dom.insert(k).contains(x) implies b.contains(x) by {
        if x != k {
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == x;
            if i < p { assert(b[i] == x); } else { assert(b[i + 1] == x); }
        }
    }
}
proof fn ix_remove(ix: Seq<usize>, dom: Set<usize>, p: int)
    requires covers(ix, dom), 0 <= p < ix.len(), forall|i: int, j: int| 0 <= i < j < ix.len() ==> ix[i] != ix[j]
    ensures covers(ix.remove(p), dom.remove(ix[p]))
{
    let b = ix.remove(p);
    assert forall|x: usize| dom.remove(ix[p]).contains(x) implies b.contains(x) by {
        let i = choose|i: int| 0 <= i < ix.len() && ix[i] == x;
        if i < p { assert(b[i] == x); } else { assert(b[i - 1] == x); }
    }
    assert forall|i: int| 0 <= i < b.len() implies dom.remove(ix[p]).contains(#[trigger] b[i]) by {
        if i < p { assert(b[i] == ix[i]); } else { assert(b[i] == ix[i + 1]); }
    }
}
pub proof fn res_remove_laws<R: Ord>()
    ensures
        forall|ix: Seq<usize>, res: RMap<R>, p: int| rix(ix, res) && 0 <= p < ix.len() ==> #[trigger] rix(ix.remove(p), res.remove(ix[p])),
        forall|res: RMap<R>, tr: TMap, k: usize| tins(res, tr) && unused(tr, k) ==> #[trigger] tins(res.remove(k), tr),
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize| tix(ix, res, tr) && tins(res.remove(k), tr) ==> #[trigger] tix(ix, res.remove(k), tr),
        forall|res: RMap<R>, tr: TMap, k: usize, u: @T@<R>| tins(res.remove(k), tr) ==> #[trigger] holds(res.remove(k), tr, u) == holds(res, tr, u),
{
    R::order_laws();
    reveal(rix); reveal(tins); reveal(tix);
    assert forall|ix: Seq<usize>, res: RMap<R>, p: int| rix(ix, res) && 0 <= p < ix.len() implies #[trigger] rix(ix.remove(p), res.remove(ix[p])) by {
        assert forall|i: int, j: int| 0 <= i < j < ix.len() implies ix[i] != ix[j] by { assert(res[ix[i]].value.olt(res[ix[j]].value)); }
        ix_remove(ix, res.dom(), p);
        let b = ix.remove(p); let r2 = res.remove(ix[p]);
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] r2[b[i]].value).olt(#[trigger] r2[b[j]].value) by {
            let i2 = if i < p { i } else { i + 1 }; let j2 = if j < p { j } else { j + 1 };
            assert(b[i] == ix[i2]); assert(b[j] == ix[j2]);
            assert(res[ix[i2]].value.olt(res[ix[j2]].value));
        }
    }
    assert forall|res: RMap<R>, tr: TMap, k: usize| tins(res, tr) && unused(tr, k) implies #[trigger] tins(res.remove(k), tr) by {
        reveal(unused);
        assert forall|i: usize| tr.dom().contains(i) implies tin(res.remove(k), #[trigger] tr[i]) by {
            assert(tin(res, tr[i])); assert(!uses(tr[i], k));
        }
    }
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize| tix(ix, res, tr) && tins(res.remove(k), tr) implies #[trigger] tix(ix, res.remove(k), tr) by {
        assert forall|i: usize| tr.dom().contains(i) implies val(res.remove(k), #[trigger] tr[i]) == val(res, tr[i]) by { assert(tin(res.remove(k), tr[i])); }
    }
    assert forall|res: RMap<R>, tr: TMap, k: usize, u: @T@<R>| tins(res.remove(k), tr) implies #[trigger] holds(res.remove(k), tr, u) == holds(res, tr, u) by {
        reveal(holds);
        assert forall|i: usize| tr.dom().contains(i) implies val(res.remove(k), #[trigger] tr[i]) == val(res, tr[i]) by { assert(tin(res.remove(k), tr[i])); }
    }
}
pub proof fn tr_insert_laws<R: Ord>()
    ensures
        forall|res: RMap<R>, tr: TMap, k: usize, t: @T@<usize>| tins(res, tr) && tin(res, t) ==> #[trigger] tins(res, tr.insert(k, t)),
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize, t: @T@<usize>, p: int| tix(ix, res, tr) && !tr.dom().contains(k) && 0 <= p <= ix.len()
            && (forall|i: int| 0 <= i < p ==> slt(val(res, tr[#[trigger] ix[i]]), val(res, t)))
            && (forall|i: int| p <= i < ix.len() ==> slt(val(res, t), val(res, tr[#[trigger] ix[i]])))
            ==> #[trigger] tix(ix.insert(p, k), res, tr.insert(k, t)),
        forall|res: RMap<R>, tr: TMap, k: usize, t: @T@<usize>, u: @T@<R>| !tr.dom().contains(k) ==> #[trigger] holds(res, tr.insert(k, t), u) == (holds(res, tr, u) || u == val(res, t)),
{
    R::order_laws(); slt_laws::<R>();
    reveal(tins); reveal(tix);
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize, t: @T@<usize>, p: int| tix(ix, res, tr) && !tr.dom().contains(k) && 0 <= p <= ix.len()
            && (forall|i: int| 0 <= i < p ==> slt(val(res, tr[#[trigger] ix[i]]), val(res, t)))
            && (forall|i: int| p <= i < ix.len() ==> slt(val(res, t), val(res, tr[#[trigger] ix[i]])))
            implies #[trigger] tix(ix.insert(p, k), res, tr.insert(k, t)) by {
        ix_insert(ix, tr.dom(), p, k);
    }
    assert forall|res: RMap<R>, tr: TMap, k: usize, t: @T@<usize>, u: @T@<R>| !tr.dom().contains(k) implies #[trigger] holds(res, tr.insert(k, t), u) == (holds(res, tr, u) || u == val(res, t)) by {
        reveal(holds);
        let tr2 = tr.insert(k, t);
        assert(tr2.dom().contains(k) && tr2[k] == t);
        if holds(res, tr, u) {
            let i = choose|i: usize| tr.dom().contains(i) && val(res, #[trigger] tr[i]) == u;
            assert(tr2.dom().contains(i) && val(res, tr2[i]) == u);
        }
        if holds(res, tr2, u) && u != val(res, t) {
            let i = choose|i: usize| tr2.dom().contains(i) && val(res, #[trigger] tr2[i]) == u;
            assert(tr.dom().contains(i) && val(res, tr[i]) == u);
        }
    }
}
pub proof fn tr_remove_laws<R: Ord>()
    ensures
        forall|res: RMap<R>, tr: TMap, k: usize| tins(res, tr) ==> #[trigger] tins(res, tr.remove(k)),
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, p: int| tix(ix, res, tr) && 0 <= p < ix.len() ==> #[trigger] tix(ix.remove(p), res, tr.remove(ix[p])),
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize, u: @T@<R>| #[trigger] tix(ix, res, tr) && tr.dom().contains(k) ==> #[trigger] holds(res, tr.remove(k), u) == (holds(res, tr, u) && u != val(res, tr[k])),
{
    R::order_laws(); slt_laws::<R>();
    reveal(tins); reveal(tix);
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, p: int| tix(ix, res, tr) && 0 <= p < ix.len() implies #[trigger] tix(ix.remove(p), res, tr.remove(ix[p])) by {
        assert forall|i: int, j: int| 0 <= i < j < ix.len() implies ix[i] != ix[j] by { assert(slt(val(res, tr[ix[i]]), val(res, tr[ix[j]]))); }
        ix_remove(ix, tr.dom(), p);
        let b = ix.remove(p); let r2 = tr.remove(ix[p]);
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies slt(val(res, #[trigger] r2[b[i]]), val(res, #[trigger] r2[b[j]])) by {
            let i2 = if i < p { i } else { i + 1 }; let j2 = if j < p { j } else { j + 1 };
            assert(b[i] == ix[i2]); assert(b[j] == ix[j2]);
            assert(slt(val(res, tr[ix[i2]]), val(res, tr[ix[j2]])));
        }
    }
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize, u: @T@<R>| #[trigger] tix(ix, res, tr) && tr.dom().contains(k) implies #[trigger] holds(res, tr.remove(k), u) == (holds(res, tr, u) && u != val(res, tr[k])) by {
        reveal(holds);
        assert forall|a: usize, b: usize| tr.dom().contains(a) && tr.dom().contains(b) && val(res, #[trigger] tr[a]) == val(res, #[trigger] tr[b]) implies a == b by {
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == a;
            let j = choose|j: int| 0 <= j < ix.len() && ix[j] == b;
            if i < j { assert(slt(val(res, tr[ix[i]]), val(res, tr[ix[j]]))); }
            if j < i { assert(slt(val(res, tr[ix[j]]), val(res, tr[ix[i]]))); }
        }
        let t2 = tr.remove(k);
        assert forall|i: usize| i != k && tr.dom().contains(i) implies #[trigger] t2.dom().contains(i) && t2[i] == tr[i] by {}
        if holds(res, tr, u) && u != val(res, tr[k]) {
            let i = choose|i: usize| tr.dom().contains(i) && val(res, #[trigger] tr[i]) == u;
            assert(t2.dom().contains(i) && val(res, t2[i]) == u);
        }
        if holds(res, t2, u) {
            let i = choose|i: usize| t2.dom().contains(i) && val(res, #[trigger] t2[i]) == u;
            assert(tr.dom().contains(i) && val(res, tr[i]) == u);
            if u == val(res, tr[k]) { assert(i == k); }
        }
    }
}

#[verifier::opaque]
pub open spec fn known<R>(res: RMap<R>, v: R) -> bool { exists|k: usize| #[trigger] res.dom().contains(k) && res[k].value == v }
pub proof fn known_use<R>() ensures
    forall|res: RMap<R>, k: usize| #[trigger] res.dom().contains(k) ==> known(res, res[k].value),
    forall|res: RMap<R>, v: R| #[trigger] known(res, v) ==> exists|k: usize| #[trigger] res.dom().contains(k) && res[k].value == v,
    forall|res: RMap<R>, k: usize, v: Resource<R>, u: R| keeps(res, k, v) ==> #[trigger] known(res.insert(k, v), u) == (known(res, u) || u == v.value),
{
    reveal(known);
    assert forall|res: RMap<R>, k: usize, v: Resource<R>, u: R| keeps(res, k, v) implies #[trigger] known(res.insert(k, v), u) == (known(res, u) || u == v.value) by {
        let r2 = res.insert(k, v);
        assert(r2.dom().contains(k) && r2[k] == v);
        if known(res, u) {
            let i = choose|i: usize| #[trigger] res.dom().contains(i) && res[i].value == u;
            assert(r2.dom().contains(i) && r2[i].value == u);
        }
    }
}
pub open spec fn rcmp<R: Ord, F: Fn(&usize, &R) -> Ordering>(f: F, res: RMap<R>) -> bool {
    &&& forall|i: &usize, r: &R| res.dom().contains(*i) ==> #[trigger] call_requires(f, (i, r))
    &&& forall|i: &usize, r: &R, o: Ordering| #[trigger] call_ensures(f, (i, r), o) ==> o == ocmp(res[*i].value, *r)
}
// what a comparison of resources by index gives on the resource index
pub open spec fn rcmp_ok<R: Ord, F: Fn(&usize, &R) -> Ordering>(f: F, res: RMap<R>) -> bool {
    &&& forall|ix: Seq<usize>, key: &R| rix(ix, res) ==> #[trigger] searchable(ix, f, key)
    &&& forall|ix: Seq<usize>, key: &R, x: usize| rix(ix, res) && #[trigger] found(ix, f, key, x) ==> res.dom().contains(x) && res[x].value == *key
    &&& forall|ix: Seq<usize>, key: &R| rix(ix, res) && #[trigger] absent(ix, f, key) ==> !known(res, *key)
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, key: &R, x: usize| rix(ix, res) && #[trigger] taken(ix, ix2, f, key, x)
            ==> res.dom().contains(x) && res[x].value == *key && rix(ix2, res.remove(x))
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, key: &R, x: usize, k: usize| rix(ix, res) && #[trigger] taken(ix, ix2, f, key, x)
            && res.dom().contains(k) && res[k].value == *key ==> #[trigger] rix(ix2, res.remove(k))
}
pub proof fn rcmp_law<R: Ord, F: Fn(&usize, &R) -> Ordering>(f: F, res: RMap<R>)
    requires rcmp(f, res)
    ensures rcmp_ok(f, res)
{
    R::order_laws(); res_remove_laws::<R>();
    reveal(rix); reveal(searchable); reveal(found); reveal(absent); reveal(taken); reveal(known);
    assert forall|ix: Seq<usize>, key: &R| rix(ix, res) && #[trigger] absent(ix, f, key) implies !known(res, *key) by {
        if known(res, *key) {
            let k = choose|k: usize| #[trigger] res.dom().contains(k) && res[k].value == *key;
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == k;
            assert(differs(f, &ix[i], key));
        }
    }
    assert forall|ix: Seq<usize>, ix2: Seq<usize>, key: &R, x: usize, k: usize| rix(ix, res) && #[trigger] taken(ix, ix2, f, key, x)
        && res.dom().contains(k) && res[k].value == *key implies #[trigger] rix(ix2, res.remove(k)) by {
        let i = choose|i: int| 0 <= i < ix.len() && ix[i] == k;
        let p = choose|p: int| 0 <= p < ix.len() && ix2 == #[trigger] ix.remove(p) && x == ix[p] && call_ensures(f, (&ix[p], key), Ordering::Equal);
        if i < p { assert(res[ix[i]].value.olt(res[ix[p]].value)); }
        if p < i { assert(res[ix[p]].value.olt(res[ix[i]].value)); }
        assert(k == x);
    }
}
pub open spec fn ricmp<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>) -> bool {
    &&& forall|i: &usize, r: &usize| res.dom().contains(*i) && res.dom().contains(*r) ==> #[trigger] call_requires(f, (i, r))
    &&& forall|i: &usize, r: &usize, o: Ordering| #[trigger] call_ensures(f, (i, r), o) ==> o == ocmp(res[*i].value, res[*r].value)
}
// inserting the index k of a resource just stored
pub open spec fn ricmp_ok<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>) -> bool {
    &&& forall|ix: Seq<usize>, res0: RMap<R>, k: &usize, v: Resource<R>| rix(ix, res0) && !res0.dom().contains(*k) && res == #[trigger] res0.insert(*k, v) ==> #[trigger] searchable(ix, f, k)
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, res0: RMap<R>, k: usize, v: Resource<R>| rix(ix, res0) && !res0.dom().contains(k) && res == #[trigger] res0.insert(k, v)
            && #[trigger] added(ix, ix2, f, k) ==> rix(ix2, res)
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, res0: RMap<R>, k: usize, v: Resource<R>, x: usize| rix(ix, res0) && !res0.dom().contains(k) && res == #[trigger] res0.insert(k, v)
            && !known(res0, v.value) ==> !#[trigger] swapped(ix, ix2, f, k, x)
    // removing the index k of a stored resource
    &&& forall|ix: Seq<usize>, k: &usize| rix(ix, res) && res.dom().contains(*k) ==> #[trigger] searchable(ix, f, k)
    &&& forall|ix: Seq<usize>, k: &usize| rix(ix, res) && res.dom().contains(*k) ==> !#[trigger] absent(ix, f, k)
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, k: &usize, x: usize| rix(ix, res) && res.dom().contains(*k) && #[trigger] taken(ix, ix2, f, k, x) ==> x == *k && rix(ix2, res.remove(*k))
}
pub proof fn ricmp_law<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>)
    requires ricmp(f, res)
    ensures ricmp_ok(f, res)
{
    R::order_laws(); rix_use::<R>(); res_insert_laws::<R>();
    reveal(searchable); reveal(added); reveal(swapped); reveal(known);
    assert forall|ix: Seq<usize>, ix2: Seq<usize>, res0: RMap<R>, k: usize, v: Resource<R>| rix(ix, res0) && !res0.dom().contains(k) && res == #[trigger] res0.insert(k, v)
            && #[trigger] added(ix, ix2, f, k) implies rix(ix2, res) by {
        let p = choose|p: int| 0 <= p <= ix.len() && ix2 == #[trigger] ix.insert(p, k)
            && (forall|i: int| 0 <= i < p ==> call_ensures(f, (&#[trigger] ix[i], &k), Ordering::Less))
            && (forall|i: int| p <= i < ix.len() ==> call_ensures(f, (&#[trigger] ix[i], &k), Ordering::Greater));
        assert(rix(ix.insert(p, k), res0.insert(k, res[k])));
    }
    res_remove_laws::<R>(); reveal(absent); reveal(taken);
    assert forall|ix: Seq<usize>, k: &usize| rix(ix, res) && res.dom().contains(*k) implies !#[trigger] absent(ix, f, k) by {
        if absent(ix, f, k) {
            let i = choose|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == *k;
            assert(differs(f, &ix[i], k));
        }
    }
    assert forall|ix: Seq<usize>, ix2: Seq<usize>, k: &usize, x: usize| rix(ix, res) && res.dom().contains(*k) && #[trigger] taken(ix, ix2, f, k, x) implies x == *k && rix(ix2, res.remove(*k)) by {
        let i = choose|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == *k;
        let p = choose|p: int| 0 <= p < ix.len() && ix2 == #[trigger] ix.remove(p) && x == ix[p] && call_ensures(f, (&ix[p], k), Ordering::Equal);
        if i < p { assert(res[ix[i]].value.olt(res[ix[p]].value)); }
        if p < i { assert(res[ix[p]].value.olt(res[ix[i]].value)); }
    }
}
pub open spec fn tcmp_of<R: Ord, F: Fn(&usize, &@T@<&R>) -> Ordering>(f: F, res: RMap<R>, tr: TMap) -> bool {
    &&& forall|i: &usize, t: &@T@<&R>| tr.dom().contains(*i) && tin(res, tr[*i]) ==> #[trigger] call_requires(f, (i, t))
    &&& forall|i: &usize, t: &@T@<&R>, o: Ordering| #[trigger] call_ensures(f, (i, t), o) ==> o == scmp(val(res, tr[*i]), derefs(*t))
}
pub open spec fn tcmp_ok<R: Ord, F: Fn(&usize, &@T@<&R>) -> Ordering>(f: F, res: RMap<R>, tr: TMap) -> bool {
    &&& forall|ix: Seq<usize>, key: &@T@<&R>| tix(ix, res, tr) && tins(res, tr) ==> #[trigger] searchable(ix, f, key)
    &&& forall|ix: Seq<usize>, key: &@T@<&R>, x: usize| tix(ix, res, tr) && #[trigger] found(ix, f, key, x) ==> tr.dom().contains(x) && val(res, tr[x]) == derefs(*key)
    &&& forall|ix: Seq<usize>, key: &@T@<&R>| tix(ix, res, tr) && #[trigger] absent(ix, f, key) ==> !holds(res, tr, derefs(*key))
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, key: &@T@<&R>, x: usize| tix(ix, res, tr) && #[trigger] taken(ix, ix2, f, key, x)
            ==> tr.dom().contains(x) && val(res, tr[x]) == derefs(*key) && tix(ix2, res, tr.remove(x))
}
pub proof fn tcmp_law<R: Ord, F: Fn(&usize, &@T@<&R>) -> Ordering>(f: F, res: RMap<R>, tr: TMap)
    requires tcmp_of(f, res, tr)
    ensures tcmp_ok(f, res, tr)
{
    R::order_laws(); slt_laws::<R>(); tix_use::<R>(); tins_use::<R>(); tr_insert_laws::<R>(); tr_remove_laws::<R>(); holds_use::<R>();
    reveal(searchable); reveal(found); reveal(absent); reveal(taken);
    assert forall|ix: Seq<usize>, key: &@T@<&R>| tix(ix, res, tr) && #[trigger] absent(ix, f, key) implies !holds(res, tr, derefs(*key)) by {
        if holds(res, tr, derefs(*key)) {
            let k = choose|k: usize| #[trigger] tr.dom().contains(k) && val(res, tr[k]) == derefs(*key);
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == k;
            assert(differs(f, &ix[i], key));
        }
    }
}
pub open spec fn ticmp<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>, tr: TMap) -> bool {
    &&& forall|i: &usize, j: &usize| tr.dom().contains(*i) && tin(res, tr[*i]) && tr.dom().contains(*j) && tin(res, tr[*j]) ==> #[trigger] call_requires(f, (i, j))
    &&& forall|i: &usize, j: &usize, o: Ordering| #[trigger] call_ensures(f, (i, j), o) ==> o == scmp(val(res, tr[*i]), val(res, tr[*j]))
}
pub open spec fn ticmp_ok<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>, tr: TMap) -> bool {
    &&& forall|ix: Seq<usize>, tr0: TMap, k: &usize, t: @T@<usize>| tix(ix, res, tr0) && tins(res, tr0) && !tr0.dom().contains(*k) && tr == #[trigger] tr0.insert(*k, t) && tin(res, t) ==> #[trigger] searchable(ix, f, k)
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, tr0: TMap, k: usize, t: @T@<usize>| tix(ix, res, tr0) && !tr0.dom().contains(k) && tr == #[trigger] tr0.insert(k, t)
            && #[trigger] added(ix, ix2, f, k) ==> tix(ix2, res, tr)
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, tr0: TMap, k: usize, t: @T@<usize>, x: usize| tix(ix, res, tr0) && !tr0.dom().contains(k) && tr == #[trigger] tr0.insert(k, t)
            && !holds(res, tr0, val(res, t)) ==> !#[trigger] swapped(ix, ix2, f, k, x)
}
pub proof fn ticmp_law<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>, tr: TMap)
    requires ticmp(f, res, tr)
    ensures ticmp_ok(f, res, tr)
{
    R::order_laws(); slt_laws::<R>(); tix_use::<R>(); tins_use::<R>(); tr_insert_laws::<R>(); tr_remove_laws::<R>(); holds_use::<R>();
    reveal(searchable); reveal(added); reveal(swapped);
    assert forall|ix: Seq<usize>, ix2: Seq<usize>, tr0: TMap, k: usize, t: @T@<usize>| tix(ix, res, tr0) && !tr0.dom().contains(k) && tr == #[trigger] tr0.insert(k, t)
            && #[trigger] added(ix, ix2, f, k) implies tix(ix2, res, tr) by {
        let p = choose|p: int| 0 <= p <= ix.len() && ix2 == #[trigger] ix.insert(p, k)
            && (forall|i: int| 0 <= i < p ==> call_ensures(f, (&#[trigger] ix[i], &k), Ordering::Less))
            && (forall|i: int| p <= i < ix.len() ==> call_ensures(f, (&#[trigger] ix[i], &k), Ordering::Greater));
        assert(tix(ix.insert(p, k), res, tr0.insert(k, tr[k])));
    }
}
// removing the index of a stored statement
pub open spec fn ticmp_del<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>, tr: TMap) -> bool {
    &&& forall|ix: Seq<usize>, k: &usize| tix(ix, res, tr) && tins(res, tr) && tr.dom().contains(*k) ==> #[trigger] searchable(ix, f, k)
    &&& forall|ix: Seq<usize>, k: &usize| tix(ix, res, tr) && tr.dom().contains(*k) ==> !#[trigger] absent(ix, f, k)
    &&& forall|ix: Seq<usize>, ix2: Seq<usize>, k: &usize, x: usize| tix(ix, res, tr) && tr.dom().contains(*k) && #[trigger] taken(ix, ix2, f, k, x) ==> x == *k && tix(ix2, res, tr.remove(*k))
}
pub proof fn ticmp_del_law<R: Ord, F: Fn(&usize, &usize) -> Ordering>(f: F, res: RMap<R>, tr: TMap)
    requires ticmp(f, res, tr)
    ensures ticmp_del(f, res, tr)
{
    R::order_laws(); slt_laws::<R>(); tix_use::<R>(); tins_use::<R>(); tr_remove_laws::<R>();
    reveal(searchable); reveal(absent); reveal(taken);
    assert forall|ix: Seq<usize>, k: &usize| tix(ix, res, tr) && tr.dom().contains(*k) implies !#[trigger] absent(ix, f, k) by {
        if absent(ix, f, k) {
            let i = choose|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == *k;
            assert(differs(f, &ix[i], k));
        }
    }
    assert forall|ix: Seq<usize>, ix2: Seq<usize>, k: &usize, x: usize| tix(ix, res, tr) && tr.dom().contains(*k) && #[trigger] taken(ix, ix2, f, k, x) implies x == *k && tix(ix2, res, tr.remove(*k)) by {
        let i = choose|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == *k;
        let p = choose|p: int| 0 <= p < ix.len() && ix2 == #[trigger] ix.remove(p) && x == ix[p] && call_ensures(f, (&ix[p], k), Ordering::Equal);
        if i < p { assert(slt(val(res, tr[ix[i]]), val(res, tr[ix[p]]))); }
        if p < i { assert(slt(val(res, tr[ix[p]]), val(res, tr[ix[i]]))); }
    }
}
