// ---- what iteration over a store yields: a strictly increasing listing of its set. Ghost code only.
pub open spec fn listing<R>(ix: Seq<usize>, res: RMap<R>, tr: TMap) -> Seq<@T@<R>> { Seq::new(ix.len(), |i: int| val(res, tr[ix[i]])) }
pub open spec fn rlisting<R>(ix: Seq<usize>, res: RMap<R>) -> Seq<R> { Seq::new(ix.len(), |i: int| res[ix[i]].value) }
pub open spec fn increasing<R: Ord>(s: Seq<@T@<R>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> slt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn rincreasing<R: Ord>(s: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).olt(#[trigger] s[j]) }
pub proof fn listing_skip<R>()
    ensures
        forall|ix: Seq<usize>, res: RMap<R>, tr: TMap| ix.len() > 0 ==> #[trigger] listing(ix.skip(1), res, tr) == listing(ix, res, tr).skip(1),
        forall|ix: Seq<usize>, res: RMap<R>| ix.len() > 0 ==> #[trigger] rlisting(ix.skip(1), res) == rlisting(ix, res).skip(1),
{
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap| ix.len() > 0 implies #[trigger] listing(ix.skip(1), res, tr) == listing(ix, res, tr).skip(1) by {
        assert(listing(ix.skip(1), res, tr) =~= listing(ix, res, tr).skip(1));
    }
    assert forall|ix: Seq<usize>, res: RMap<R>| ix.len() > 0 implies #[trigger] rlisting(ix.skip(1), res) == rlisting(ix, res).skip(1) by {
        assert(rlisting(ix.skip(1), res) =~= rlisting(ix, res).skip(1));
    }
}
proof fn covers_len(ix: Seq<usize>, dom: Set<usize>)
    requires covers(ix, dom), ix.no_duplicates()
    ensures ix.len() == dom.len()
{
    ix.unique_seq_to_set();
    assert(ix.to_set() =~= dom);
}
// The listing is strictly increasing, lists exactly the stored statements, and has their number.
pub proof fn listing_ok<R: Ord>(ix: Seq<usize>, res: RMap<R>, tr: TMap)
    requires tix(ix, res, tr)
    ensures
        increasing(listing(ix, res, tr)),
        forall|u: @T@<R>| #[trigger] listing(ix, res, tr).contains(u) == holds(res, tr, u),
        listing(ix, res, tr).len() == tr.dom().len(),
        ix.len() == tr.dom().len(),
{
    R::order_laws(); slt_laws::<R>();
    reveal(tix); reveal(holds);
    let l = listing(ix, res, tr);
    assert forall|u: @T@<R>| #[trigger] l.contains(u) == holds(res, tr, u) by {
        if l.contains(u) { let i = choose|i: int| 0 <= i < l.len() && l[i] == u; assert(tr.dom().contains(ix[i])); }
        if holds(res, tr, u) {
            let k = choose|k: usize| tr.dom().contains(k) && val(res, #[trigger] tr[k]) == u;
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == k;
            assert(l[i] == u);
        }
    }
    assert forall|i: int, j: int| 0 <= i < ix.len() && 0 <= j < ix.len() && i != j implies ix[i] != ix[j] by {
        if i < j { assert(slt(val(res, tr[ix[i]]), val(res, tr[ix[j]]))); } else { assert(slt(val(res, tr[ix[j]]), val(res, tr[ix[i]]))); }
    }
    covers_len(ix, tr.dom());
}
pub proof fn rlisting_ok<R: Ord>(ix: Seq<usize>, res: RMap<R>)
    requires rix(ix, res)
    ensures
        rincreasing(rlisting(ix, res)),
        forall|v: R| #[trigger] rlisting(ix, res).contains(v) == known(res, v),
        rlisting(ix, res).len() == res.dom().len(),
{
    R::order_laws();
    reveal(rix); reveal(known);
    let l = rlisting(ix, res);
    assert forall|v: R| #[trigger] l.contains(v) == known(res, v) by {
        if l.contains(v) { let i = choose|i: int| 0 <= i < l.len() && l[i] == v; assert(res.dom().contains(ix[i])); }
        if known(res, v) {
            let k = choose|k: usize| #[trigger] res.dom().contains(k) && res[k].value == v;
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == k;
            assert(l[i] == v);
        }
    }
    assert forall|i: int, j: int| 0 <= i < ix.len() && 0 <= j < ix.len() && i != j implies ix[i] != ix[j] by {
        if i < j { assert(res[ix[i]].value.olt(res[ix[j]].value)); } else { assert(res[ix[j]].value.olt(res[ix[i]].value)); }
    }
    covers_len(ix, res.dom());
}
// A strictly increasing sequence is determined by its set: equality and order of stores depend on content only.
pub proof fn same_listing<R: Ord>(a: Seq<@T@<R>>, b: Seq<@T@<R>>)
    requires increasing(a), increasing(b), forall|u: @T@<R>| #![trigger a.contains(u)] #![trigger b.contains(u)] a.contains(u) == b.contains(u)
    ensures a == b
    decreases a.len()
{
    R::order_laws(); slt_laws::<R>();
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        assert(b.contains(b[0]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[0];
        assert(i == 0 && j == 0) by {
            if i > 0 { assert(slt(a[0], a[i])); if j > 0 { assert(slt(b[0], b[j])); } }
        }
        let a2 = a.skip(1); let b2 = b.skip(1);
        assert forall|u: @T@<R>| #[trigger] a2.contains(u) implies b2.contains(u) by {
            let k = choose|k: int| 0 <= k < a2.len() && a2[k] == u;
            assert(a[k + 1] == u); assert(a.contains(u)); assert(slt(a[0], a[k + 1]));
            let m = choose|m: int| 0 <= m < b.len() && b[m] == u;
            assert(b2[m - 1] == u);
        }
        assert forall|u: @T@<R>| #[trigger] b2.contains(u) implies a2.contains(u) by {
            let k = choose|k: int| 0 <= k < b2.len() && b2[k] == u;
            assert(b[k + 1] == u); assert(b.contains(u)); assert(slt(b[0], b[k + 1]));
            let m = choose|m: int| 0 <= m < a.len() && a[m] == u;
            assert(a2[m - 1] == u);
        }
        same_listing(a2, b2);
        assert(a =~= seq![a[0]] + a2); assert(b =~= seq![b[0]] + b2);
    }
}
// v is known exactly when some stored statement mentions it
#[verifier::opaque]
pub open spec fn busy<R>(res: RMap<R>, tr: TMap) -> bool { forall|r: usize| #[trigger] res.dom().contains(r) ==> !unused(tr, r) }
proof fn busy_at<R>(res: RMap<R>, tr: TMap, r: usize) -> (i: usize)
    requires busy(res, tr), res.dom().contains(r)
    ensures tr.dom().contains(i), uses(tr[i], r)
{
    reveal(busy); reveal(unused);
    choose|i: usize| tr.dom().contains(i) && uses(#[trigger] tr[i], r)
}
pub proof fn known_is_used<R: Ord>(res: RMap<R>, tr: TMap)
    requires tins(res, tr), busy(res, tr)
    ensures forall|v: R| #[trigger] known(res, v) == used(res, tr, v)
{
    assert forall|v: R| #[trigger] known(res, v) == used(res, tr, v) by {
        known_use::<R>(); holds_use::<R>();
        if known(res, v) {
            let r = choose|k: usize| #[trigger] res.dom().contains(k) && res[k].value == v;
            let i = busy_at(res, tr, r);
            assert(holds(res, tr, val(res, tr[i]))); assert(mentions(val(res, tr[i]), v));
        }
        if used(res, tr, v) {
            let u = choose|u: @T@<R>| #[trigger] holds(res, tr, u) && mentions(u, v);
            let i = choose|i: usize| #[trigger] tr.dom().contains(i) && val(res, tr[i]) == u;
            tins_use::<R>();
            assert(tin(res, tr[i]));
            if u.0 == v { assert(res.dom().contains(tr[i].0)); }
            else if u.1 == v { assert(res.dom().contains(tr[i].1)); }
            else if u.2 == v { assert(res.dom().contains(tr[i].2)); }
            else { assert(comp(tr[i], 3) is Some); assert(res.dom().contains(comp(tr[i], 3)->0)); }
        }
    }
}
pub open spec fn used<R>(res: RMap<R>, tr: TMap, v: R) -> bool { exists|u: @T@<R>| #[trigger] holds(res, tr, u) && mentions(u, v) }
pub open spec fn stepd<R>(before: Seq<@T@<R>>, after: Seq<@T@<R>>, r: Option<@T@<&R>>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r is Some && derefs(r->0) == before[0] && after == before.skip(1) }
}
pub proof fn listing_forget<R>()
    ensures forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize| ix.len() > 0 && ix.no_duplicates() && k == ix[0]
        ==> #[trigger] listing(ix.skip(1), res, tr.remove(k)) == listing(ix, res, tr).skip(1)
{
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, k: usize| ix.len() > 0 && ix.no_duplicates() && k == ix[0]
        implies #[trigger] listing(ix.skip(1), res, tr.remove(k)) == listing(ix, res, tr).skip(1) by {
        let a = listing(ix.skip(1), res, tr.remove(k)); let b = listing(ix, res, tr).skip(1);
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(ix[i + 1] != ix[0]); }
        assert(a =~= b);
    }
}
pub proof fn tr_remove_laws0<R>()
    ensures forall|res: RMap<R>, tr: TMap, k: usize| tins(res, tr) ==> #[trigger] tins(res, tr.remove(k)),
{ reveal(tins); }
pub proof fn tix_distinct<R: Ord>()
    ensures forall|ix: Seq<usize>, res: RMap<R>, tr: TMap| #[trigger] tix(ix, res, tr) ==> ix.no_duplicates()
{
    R::order_laws(); slt_laws::<R>(); reveal(tix);
    assert forall|ix: Seq<usize>, res: RMap<R>, tr: TMap, i: int, j: int| #[trigger] tix(ix, res, tr) && 0 <= i < ix.len() && 0 <= j < ix.len() && i != j implies #[trigger] ix[i] != #[trigger] ix[j] by {
        if i < j { assert(slt(val(res, tr[ix[i]]), val(res, tr[ix[j]]))); } else { assert(slt(val(res, tr[ix[j]]), val(res, tr[ix[i]]))); }
    }
}
// ---- comparison of whole listings: core's Iterator::cmp on sorted sequences
pub open spec fn lex<R: Ord>(a: Seq<@T@<R>>, b: Seq<@T@<R>>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] == b[0] { lex(a.skip(1), b.skip(1)) }
    else { scmp(a[0], b[0]) }
}
#[verifier::reject_recursive_types(R)]
pub struct Zipped<'a, 'b, R> { pub a: @Ts@<'a, R>, pub b: @Ts@<'b, R> }
impl<'a, R: Ord> @Ts@<'a, R> {
    #[verifier::external_body]
    pub fn zip<'b>(self, other: &'b @S@<R>) -> (z: Zipped<'a, 'b, R>) requires self.ok(), other.base() ensures z.a == self, z.b.rest() == other.list() { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp<'b>(self, other: &'b @S@<R>) -> (o: Ordering) requires self.ok(), other.base() ensures o == lex(self.rest(), other.list()) { unimplemented!() }
    #[verifier::external_body]
    pub fn partial_cmp<'b>(self, other: &'b @S@<R>) -> (o: Option<Ordering>) requires self.ok(), other.base() ensures o == Some(lex(self.rest(), other.list())) { unimplemented!() }
}
pub open spec fn pairs_say<R, F: Fn((@T@<&R>, @T@<&R>)) -> bool>(f: F, a: @T@<R>, b: @T@<R>, o: bool) -> bool {
    exists|x: @T@<&R>, y: @T@<&R>| derefs(x) == a && derefs(y) == b && #[trigger] call_ensures(f, ((x, y),), o)
}
impl<'a, 'b, R> Zipped<'a, 'b, R> {
    #[verifier::external_body]
    pub fn all<F: Fn((@T@<&R>, @T@<&R>)) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: @T@<&R>, y: @T@<&R>| #[trigger] call_requires(f, ((x, y),))
        ensures
            r ==> forall|i: int| 0 <= i < self.a.rest().len() && i < self.b.rest().len() ==> pairs_say(f, #[trigger] self.a.rest()[i], self.b.rest()[i], true),
            !r ==> exists|i: int| 0 <= i < self.a.rest().len() && i < self.b.rest().len() && pairs_say(f, #[trigger] self.a.rest()[i], self.b.rest()[i], false),
    { unimplemented!() }
}
pub uninterp spec fn fed<R>(t: @T@<R>) -> Seq<int>;
pub open spec fn fed_all<R>(s: Seq<@T@<R>>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { fed(s[0]) + fed_all(s.skip(1)) } }
pub trait Hasher {
    spec fn log(&self) -> Seq<int>;
    fn write_usize(&mut self, n: usize) ensures final(self).log() == old(self).log().push(n as int);
}
pub proof fn is_empty_law<R>(a: Seq<@T@<R>>) ensures (a.len() == 0) == (forall|u: @T@<R>| !#[trigger] a.contains(u))
{ if a.len() > 0 { assert(a.contains(a[0])); } }
pub proof fn eq_law<R: Ord>(a: Seq<@T@<R>>, b: Seq<@T@<R>>)
    requires increasing(a), increasing(b)
    ensures (a == b) == (forall|u: @T@<R>| #![trigger a.contains(u)] #![trigger b.contains(u)] a.contains(u) == b.contains(u)),
        (a == b) == (a.len() == b.len() && forall|i: int| 0 <= i < a.len() && i < b.len() ==> #[trigger] a[i] == b[i])
{
    if forall|u: @T@<R>| #![trigger a.contains(u)] #![trigger b.contains(u)] a.contains(u) == b.contains(u) { same_listing(a, b); }
    if a.len() == b.len() && forall|i: int| 0 <= i < a.len() && i < b.len() ==> #[trigger] a[i] == b[i] { assert(a =~= b); }
}
pub proof fn lex_eq<R: Ord>(a: Seq<@T@<R>>, b: Seq<@T@<R>>)
    ensures (lex(a, b) == Ordering::Equal) == (a == b)
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() > 0 && a[0] == b[0] {
        lex_eq(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
    }
}
#[verifier::opaque]
pub open spec fn after<R>(l: Seq<int>, s: Seq<@T@<R>>) -> Seq<int> { l + fed_all(s) }
pub proof fn fed_laws<R>()
    ensures forall|l: Seq<int>, s: Seq<@T@<R>>, x: @T@<R>| s.len() > 0 && x == s[0] ==> after(l, s) == #[trigger] after(l + fed(x), s.skip(1)),
        forall|l: Seq<int>, s: Seq<@T@<R>>| s.len() == 0 ==> #[trigger] after(l, s) == l,
        forall|l: Seq<int>, s: Seq<@T@<R>>| #[trigger] after(l, s) == l + fed_all(s),
{
    reveal(after);
    assert forall|l: Seq<int>, s: Seq<@T@<R>>, x: @T@<R>| s.len() > 0 && x == s[0] implies after(l, s) == #[trigger] after(l + fed(x), s.skip(1)) by {
        assert(after(l, s) =~= after(l + fed(x), s.skip(1)));
    }
    assert forall|l: Seq<int>, s: Seq<@T@<R>>| s.len() == 0 implies #[trigger] after(l, s) == l by { assert(after(l, s) =~= l); }
}
pub proof fn contains_skip<R>()
    ensures forall|s: Seq<@T@<R>>, u: @T@<R>| s.len() > 0 ==> s.contains(u) == (u == s[0] || #[trigger] s.skip(1).contains(u)),
{
    assert forall|s: Seq<@T@<R>>, u: @T@<R>| s.len() > 0 implies s.contains(u) == (u == s[0] || #[trigger] s.skip(1).contains(u)) by {
        let t = s.skip(1);
        if s.contains(u) && u != s[0] { let i = choose|i: int| 0 <= i < s.len() && s[i] == u; assert(t[i - 1] == u); }
        if t.contains(u) { let i = choose|i: int| 0 <= i < t.len() && t[i] == u; assert(s[i + 1] == u); }
        if u == s[0] { assert(s[0] == u); }
    }
}
pub proof fn all_clear_wf<R: Ord>() ensures forall|g: @S@<R>| #[trigger] g.clear() ==> g.wf() && forall|u: @T@<R>| !#[trigger] g.has(u)
{ assert forall|g: @S@<R>| #[trigger] g.clear() implies g.wf() && forall|u: @T@<R>| !#[trigger] g.has(u) by { g.clear_wf(); } }
