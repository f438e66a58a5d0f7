// ---- what an isomorphism is
pub trait Names: Sized {
    type Resource;
    // n is an IRI (a literal) that stands for r
    spec fn iri(&self, r: &Self::Resource, n: int) -> bool;
    spec fn lit(&self, r: &Self::Resource, n: int) -> bool;
}
pub open spec fn shares<I: Names>(i: &I, a: &I::Resource, b: &I::Resource) -> bool { (exists|n: int| #[trigger] i.iri(a, n) && i.iri(b, n)) || (exists|n: int| #[trigger] i.lit(a, n) && i.lit(b, n)) }
// a resource without a name: a blank node
pub open spec fn anon<I: Names>(i: &I, r: &I::Resource) -> bool { forall|n: int| #![trigger i.iri(r, n)] #![trigger i.lit(r, n)] !i.iri(r, n) && !i.lit(r, n) }
// a name stands for one resource
pub open spec fn identifies<I: Names>(i: &I) -> bool { forall|a: &I::Resource, b: &I::Resource| #[trigger] shares(i, a, b) ==> *a == *b }
pub open spec fn opt_map<X, Y>(g: Option<X>, f: spec_fn(X) -> Y) -> Option<Y> { match g { Some(x) => Some(f(x)), None => None } }
pub open spec fn quad_map<X, Y>(q: Quad<X>, f: spec_fn(X) -> Y) -> Quad<Y> { Quad(f(q.0), f(q.1), f(q.2), opt_map(q.3, f)) }
// x occurs in q
pub open spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
pub open spec fn occ<I: Names>(i: &I, q: Quad<&I::Resource>, x: &I::Resource) -> nat {
    if anon(i, x) { one(*q.0 == *x) + one(*q.1 == *x) + one(*q.2 == *x) + one(q.3 is Some && *q.3->0 == *x) } else { 0 }
}
pub open spec fn among<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, x: &I::Resource) -> bool { exists|q: Quad<&I::Resource>| #[trigger] s.contains(q) && occ(i, q, x) > 0 }
pub open spec fn rename<'x, R>(f: Map<&'x R, &'x R>, r: &'x R) -> &'x R { if f.contains_key(r) { f[r] } else { r } }
pub open spec fn img<'x, R>(f: Map<&'x R, &'x R>, q: Quad<&'x R>) -> Quad<&'x R> { Quad(rename(f, q.0), rename(f, q.1), rename(f, q.2), match q.3 { Some(g) => Some(rename(f, g)), None => None }) }
pub open spec fn inj<R>(f: Map<&R, &R>) -> bool { forall|x: &R, y: &R| #![trigger f[x], f[y]] f.contains_key(x) && f.contains_key(y) && f[x] == f[y] ==> x == y }
// f renames the blank nodes of s (and nothing else) one to one to blank nodes, and makes s into t
pub open spec fn iso<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, t: Seq<Quad<&I::Resource>>, f: Map<&I::Resource, &I::Resource>) -> bool {
    &&& forall|x: &I::Resource| #[trigger] f.contains_key(x) <==> among(i, s, x)
    &&& forall|x: &I::Resource| #[trigger] f.contains_key(x) ==> anon(i, f[x])
    &&& inj(f)
    &&& forall|q: Quad<&I::Resource>| #[trigger] s.contains(q) ==> t.contains(img(f, q))
    &&& forall|u: Quad<&I::Resource>| #[trigger] t.contains(u) ==> exists|q: Quad<&I::Resource>| #[trigger] s.contains(q) && img(f, q) == u
}
pub open spec fn inverse<R>(f: Map<&R, &R>, b: Map<&R, &R>) -> bool {
    (forall|x: &R| #[trigger] f.contains_key(x) ==> b.contains_key(f[x]) && b[f[x]] == x) && (forall|y: &R| #[trigger] b.contains_key(y) ==> f.contains_key(b[y]) && f[b[y]] == y)
}
// ---- classes of resources and quads under a partial bijection
pub enum Cls<X> { Named(X), Mapped(X), Blank }
pub open spec fn ca<'x, I: Names>(i: &I, f: Map<&'x I::Resource, &'x I::Resource>, r: &'x I::Resource) -> Cls<&'x I::Resource> { if !anon(i, r) { Cls::Named(r) } else if f.contains_key(r) { Cls::Mapped(f[r]) } else { Cls::Blank } }
pub open spec fn cb<'x, I: Names>(i: &I, b: Map<&'x I::Resource, &'x I::Resource>, r: &'x I::Resource) -> Cls<&'x I::Resource> { if !anon(i, r) { Cls::Named(r) } else if b.contains_key(r) { Cls::Mapped(r) } else { Cls::Blank } }
pub open spec fn qa<'x, I: Names>(i: &I, f: Map<&'x I::Resource, &'x I::Resource>, q: Quad<&'x I::Resource>) -> Quad<Cls<&'x I::Resource>> { Quad(ca(i, f, q.0), ca(i, f, q.1), ca(i, f, q.2), match q.3 { Some(g) => Some(ca(i, f, g)), None => None }) }
pub open spec fn qb<'x, I: Names>(i: &I, b: Map<&'x I::Resource, &'x I::Resource>, q: Quad<&'x I::Resource>) -> Quad<Cls<&'x I::Resource>> { Quad(cb(i, b, q.0), cb(i, b, q.1), cb(i, b, q.2), match q.3 { Some(g) => Some(cb(i, b, g)), None => None }) }
pub open spec fn fa<'x, I: Names>(i: &'x I, f: Map<&'x I::Resource, &'x I::Resource>) -> spec_fn(Quad<&'x I::Resource>) -> Quad<Cls<&'x I::Resource>> { |q: Quad<&'x I::Resource>| qa(i, f, q) }
pub open spec fn fb<'x, I: Names>(i: &'x I, b: Map<&'x I::Resource, &'x I::Resource>) -> spec_fn(Quad<&'x I::Resource>) -> Quad<Cls<&'x I::Resource>> { |q: Quad<&'x I::Resource>| qb(i, b, q) }
pub open spec fn bag_a<'x, I: Names>(i: &I, f: Map<&'x I::Resource, &'x I::Resource>, s: Seq<Quad<&'x I::Resource>>) -> Multiset<Quad<Cls<&'x I::Resource>>> { s.map_values(fa(i, f)).to_multiset() }
pub open spec fn bag_b<'x, I: Names>(i: &I, b: Map<&'x I::Resource, &'x I::Resource>, s: Seq<Quad<&'x I::Resource>>) -> Multiset<Quad<Cls<&'x I::Resource>>> { s.map_values(fb(i, b)).to_multiset() }
// ---- permutations
pub proof fn perm_map<A, C>(s: Seq<A>, t: Seq<A>, f: spec_fn(A) -> C)
    requires s.to_multiset() == t.to_multiset()
    ensures s.map_values(f).to_multiset() == t.map_values(f).to_multiset()
    decreases s.len()
{
    broadcast use group_to_multiset_ensures;
    assert(s.to_multiset().len() == s.len() && t.to_multiset().len() == t.len());
    if s.len() == 0 { assert(s.map_values(f) =~= t.map_values(f)); }
    else {
        let x = s.last();
        assert(s.contains(x)); assert(s.to_multiset().count(x) > 0); assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
        let s2 = s.drop_last(); let t2 = t.remove(k);
        assert(s2.push(x) =~= s);
        assert(t2.to_multiset() =~= t.to_multiset().remove(x));
        assert(s2.to_multiset() =~= s.to_multiset().remove(x));
        perm_map(s2, t2, f);
        assert(s.map_values(f) =~= s2.map_values(f).push(f(x)));
        assert(t.map_values(f).remove(k) =~= t2.map_values(f));
        let tm = t.map_values(f);
        assert(tm[k] == f(x));
        assert(tm.remove(k).to_multiset() =~= tm.to_multiset().remove(f(x)));
        assert(tm.contains(tm[k]));
        assert(tm.to_multiset() =~= t2.map_values(f).to_multiset().insert(f(x)));
    }
}
// two listings of the same things are permutations of each other
pub proof fn same_bag<A>(s: Seq<A>, t: Seq<A>)
    requires s.no_duplicates(), t.no_duplicates(), forall|x: A| #[trigger] s.contains(x) <==> t.contains(x)
    ensures s.to_multiset() == t.to_multiset(), s.len() == t.len()
{
    broadcast use group_to_multiset_ensures;
    s.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates();
    assert forall|x: A| s.to_multiset().count(x) == t.to_multiset().count(x) by {
        if s.contains(x) { assert(s.to_multiset().contains(x)); assert(t.contains(x)); assert(t.to_multiset().contains(x)); }
        else { assert(!t.contains(x)); assert(!s.to_multiset().contains(x)); assert(!t.to_multiset().contains(x)); }
    }
    assert(s.to_multiset() =~= t.to_multiset());
    assert(s.to_multiset().len() == s.len() && t.to_multiset().len() == t.len());
}
// an element counts as many times after an injection
pub proof fn count_inj<A, C>(s: Seq<A>, f: spec_fn(A) -> C, x: A)
    requires forall|y: A| #[trigger] s.contains(y) && f(y) == f(x) ==> y == x
    ensures s.map_values(f).to_multiset().count(f(x)) == s.to_multiset().count(x)
    decreases s.len()
{
    broadcast use group_to_multiset_ensures;
    if s.len() == 0 { assert(s.map_values(f) =~= Seq::empty()); assert(s =~= Seq::empty()); }
    else {
        let s2 = s.drop_last(); let l = s.last();
        assert(s2.push(l) =~= s);
        assert(s.map_values(f) =~= s2.map_values(f).push(f(l)));
        assert forall|y: A| #[trigger] s2.contains(y) && f(y) == f(x) implies y == x by { assert(s.contains(y)); }
        count_inj(s2, f, x);
        assert(s.contains(l));
    }
}
pub open spec fn bsum<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bc(i, s[0]) + bsum(i, s.skip(1)) } }
pub open spec fn bc<I: Names>(i: &I, q: Quad<&I::Resource>) -> nat { one(anon(i, q.0)) + one(anon(i, q.1)) + one(anon(i, q.2)) + one(q.3 is Some && anon(i, q.3->0)) }
pub proof fn bsum_remove<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, k: int)
    requires 0 <= k < s.len()
    ensures bsum(i, s) == bsum(i, s.remove(k)) + bc(i, s[k])
    decreases s.len()
{
    if k == 0 { assert(s.remove(0) =~= s.skip(1)); }
    else {
        assert(s.remove(k).skip(1) =~= s.skip(1).remove(k - 1));
        bsum_remove(i, s.skip(1), k - 1);
        assert(s.remove(k)[0] == s[0]);
    }
}
// same number of blank node occurrences
pub proof fn bsum_perm<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, t: Seq<Quad<&I::Resource>>)
    requires s.to_multiset() == t.to_multiset()
    ensures bsum(i, s) == bsum(i, t)
    decreases s.len()
{
    broadcast use group_to_multiset_ensures;
    assert(s.to_multiset().len() == s.len() && t.to_multiset().len() == t.len());
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x)); assert(s.to_multiset().count(x) > 0); assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
        assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().push(x) =~= s);
        assert(t.remove(k).to_multiset() =~= t.to_multiset().remove(x));
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x));
        bsum_perm(i, s.drop_last(), t.remove(k));
        bsum_remove(i, t, k); bsum_remove(i, s, s.len() - 1);
    }
}
pub proof fn bsum_img<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, f: Map<&I::Resource, &I::Resource>)
    requires forall|x: &I::Resource| #[trigger] f.contains_key(x) ==> anon(i, x) && anon(i, f[x])
    ensures bsum(i, s.map_values(|q: Quad<&I::Resource>| img(f, q))) == bsum(i, s)
    decreases s.len()
{
    if s.len() > 0 {
        let m = |q: Quad<&I::Resource>| img(f, q);
        assert(s.map_values(m).skip(1) =~= s.skip(1).map_values(m));
        bsum_img(i, s.skip(1), f);
        assert(bc(i, img(f, s[0])) == bc(i, s[0]));
    }
}
pub proof fn folds_sum<I: Names, F: Fn(usize, Quad<&I::Resource>) -> usize>(i: &I, f: F, acc: usize, s: Seq<Quad<&I::Resource>>, r: usize)
    requires folds(f, acc, s, r), forall|c: usize, q: Quad<&I::Resource>, m: usize| #[trigger] call_ensures(f, (c, q), m) ==> m == c + bc(i, q)
    ensures r == acc + bsum(i, s)
    decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: usize| #[trigger] call_ensures(f, (acc, s[0]), m) && folds(f, m, s.skip(1), r);
        folds_sum(i, f, m, s.skip(1), r);
    }
}
// ---- signatures: for each blank node, the quads it occurs in, as many times as it occurs
pub open spec fn sigs<'x, I: Names>(i: &I, s: Seq<Quad<&'x I::Resource>>, m: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>) -> bool {
    &&& forall|x: &I::Resource| #[trigger] m.contains_key(x) <==> among(i, s, x)
    &&& forall|x: &I::Resource, q: Quad<&I::Resource>| m.contains_key(x) ==> #[trigger] m[x].0@.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 })
}
// while they are collected: the quads of s not in rest are in, and the marked positions of q
pub open spec fn cntm<R>(m: Map<&R, BlankSignature<R>>, x: &R, q: Quad<&R>) -> nat { if m.contains_key(x) { m[x].0@.to_multiset().count(q) } else { 0 } }
pub open spec fn filled<R>(m: Map<&R, BlankSignature<R>>) -> bool { forall|x: &R| #[trigger] m.contains_key(x) ==> m[x].0@.len() > 0 }
pub open spec fn occ_at<I: Names>(i: &I, q: Quad<&I::Resource>, x: &I::Resource, b0: bool, b1: bool, b2: bool, b3: bool) -> nat {
    if anon(i, x) { one(b0 && *q.0 == *x) + one(b1 && *q.1 == *x) + one(b2 && *q.2 == *x) + one(b3 && q.3 is Some && *q.3->0 == *x) } else { 0 }
}
pub open spec fn collected<'x, I: Names>(i: &I, s: Seq<Quad<&'x I::Resource>>, rest: Seq<Quad<&'x I::Resource>>, m: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>) -> bool {
    &&& rest.no_duplicates() && filled(m)
    &&& forall|q: Quad<&I::Resource>| #[trigger] rest.contains(q) ==> s.contains(q)
    &&& forall|x: &I::Resource, p: Quad<&I::Resource>| #[trigger] cntm(m, x, p) == (if s.contains(p) && !rest.contains(p) { occ(i, p, x) } else { 0 })
}
pub open spec fn collecting<'x, I: Names>(i: &I, s: Seq<Quad<&'x I::Resource>>, rest: Seq<Quad<&'x I::Resource>>, q: Quad<&'x I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>) -> bool {
    &&& rest.no_duplicates() && filled(m) && s.contains(q) && !rest.contains(q)
    &&& forall|q: Quad<&I::Resource>| #[trigger] rest.contains(q) ==> s.contains(q)
    &&& forall|x: &I::Resource, p: Quad<&I::Resource>| #[trigger] cntm(m, x, p) == (if p == q { occ_at(i, q, x, b0, b1, b2, b3) } else if s.contains(p) && !rest.contains(p) { occ(i, p, x) } else { 0 })
}
pub proof fn collect_starts<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>)
    ensures forall|rest: Seq<Quad<&I::Resource>>, m: Map<&I::Resource, BlankSignature<I::Resource>>| #![trigger collected(i, s, rest, m)]
        (m == Map::<&I::Resource, BlankSignature<I::Resource>>::empty() && rest.no_duplicates() && (forall|q: Quad<&I::Resource>| #[trigger] rest.contains(q) <==> s.contains(q)) ==> collected(i, s, rest, m))
        && (collected(i, s, rest, m) && rest.len() > 0 ==> collecting(i, s, rest.skip(1), rest[0], false, false, false, false, m))
{
    assert forall|rest: Seq<Quad<&I::Resource>>, m: Map<&I::Resource, BlankSignature<I::Resource>>| #[trigger] collected(i, s, rest, m) && rest.len() > 0 implies collecting(i, s, rest.skip(1), rest[0], false, false, false, false, m) by {
        collect_start(i, s, rest, m);
    }
}
pub proof fn collect_start<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, m: Map<&I::Resource, BlankSignature<I::Resource>>)
    requires collected(i, s, rest, m), rest.len() > 0
    ensures collecting(i, s, rest.skip(1), rest[0], false, false, false, false, m)
{
    let r2 = rest.skip(1); let q = rest[0];
    assert forall|p: Quad<&I::Resource>| #[trigger] rest.contains(p) <==> p == q || r2.contains(p) by {
        if rest.contains(p) { let j = choose|j: int| 0 <= j < rest.len() && rest[j] == p; if j > 0 { assert(r2[j - 1] == p); } }
        if r2.contains(p) { let j = choose|j: int| 0 <= j < r2.len() && r2[j] == p; assert(rest[j + 1] == p); }
    }
    assert forall|p: Quad<&I::Resource>| #[trigger] r2.contains(p) implies s.contains(p) by { assert(rest.contains(p)); }
    assert(rest.contains(q));
    assert(!r2.contains(q)) by { if r2.contains(q) { let j = choose|j: int| 0 <= j < r2.len() && r2[j] == q; assert(rest[j + 1] == q); } }
    assert forall|x: &I::Resource, p: Quad<&I::Resource>| #[trigger] cntm(m, x, p) == (if p == q { 0 } else if s.contains(p) && !r2.contains(p) { occ(i, p, x) } else { 0 }) by { assert(rest.contains(p) <==> p == q || r2.contains(p)); }
}
// q goes into the signature of k
pub open spec fn sig_put<'x, R>(m: Map<&'x R, BlankSignature<'x, R>>, k: &'x R, q: Quad<&'x R>, l: BlankSignature<'x, R>) -> bool { l.0@ == (if m.contains_key(k) { m[k].0@ } else { Seq::empty() }).push(q) }
pub proof fn cnt_put<R>(m: Map<&R, BlankSignature<R>>, k: &R, q: Quad<&R>, l: BlankSignature<R>)
    requires sig_put(m, k, q, l)
    ensures filled(m) ==> filled(m.insert(k, l)), forall|x: &R, p: Quad<&R>| #[trigger] cntm(m.insert(k, l), x, p) == cntm(m, x, p) + one(x == k && p == q)
{
    broadcast use group_to_multiset_ensures;
    let m2 = m.insert(k, l);
    assert forall|x: &R, p: Quad<&R>| #[trigger] cntm(m2, x, p) == cntm(m, x, p) + one(x == k && p == q) by { if x == k { if m.contains_key(k) {} else { assert(Seq::<Quad<&R>>::empty().to_multiset().count(p) == 0); } } }
}
pub proof fn collect_put<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&I::Resource, BlankSignature<I::Resource>>, k: &I::Resource, l: BlankSignature<I::Resource>)
    requires collecting(i, s, rest, q, b0, b1, b2, b3, m), anon(i, k), sig_put(m, k, q, l)
    ensures !b0 && q.0 == k ==> collecting(i, s, rest, q, true, b1, b2, b3, m.insert(k, l)), !b1 && q.1 == k ==> collecting(i, s, rest, q, b0, true, b2, b3, m.insert(k, l)),
        !b2 && q.2 == k ==> collecting(i, s, rest, q, b0, b1, true, b3, m.insert(k, l)), !b3 && q.3 == Some(k) ==> collecting(i, s, rest, q, b0, b1, b2, true, m.insert(k, l))
{
    cnt_put(m, k, q, l);
    let m2 = m.insert(k, l);
    assert(filled(m2));
    put_at(i, s, rest, q, b0, b1, b2, b3, m, k, m2);
}
pub proof fn occ_put<I: Names>(i: &I, q: Quad<&I::Resource>, x: &I::Resource, b0: bool, b1: bool, b2: bool, b3: bool, k: &I::Resource)
    requires anon(i, k)
    ensures !b0 && q.0 == k ==> occ_at(i, q, x, true, b1, b2, b3) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k), !b1 && q.1 == k ==> occ_at(i, q, x, b0, true, b2, b3) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k),
        !b2 && q.2 == k ==> occ_at(i, q, x, b0, b1, true, b3) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k), !b3 && q.3 == Some(k) ==> occ_at(i, q, x, b0, b1, b2, true) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k)
{}
pub proof fn put_at<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&I::Resource, BlankSignature<I::Resource>>, k: &I::Resource, m2: Map<&I::Resource, BlankSignature<I::Resource>>)
    requires collecting(i, s, rest, q, b0, b1, b2, b3, m), anon(i, k), filled(m2), forall|x: &I::Resource, p: Quad<&I::Resource>| #[trigger] cntm(m2, x, p) == cntm(m, x, p) + one(x == k && p == q)
    ensures !b0 && q.0 == k ==> collecting(i, s, rest, q, true, b1, b2, b3, m2), !b1 && q.1 == k ==> collecting(i, s, rest, q, b0, true, b2, b3, m2),
        !b2 && q.2 == k ==> collecting(i, s, rest, q, b0, b1, true, b3, m2), !b3 && q.3 == Some(k) ==> collecting(i, s, rest, q, b0, b1, b2, true, m2)
{
    hide(occ_at); hide(cntm); hide(occ); hide(anon); hide(filled);
    assert forall|x: &I::Resource| true implies #[trigger] cntm(m2, x, q) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k)
        && (!b0 && q.0 == k ==> occ_at(i, q, x, true, b1, b2, b3) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k)) && (!b1 && q.1 == k ==> occ_at(i, q, x, b0, true, b2, b3) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k))
        && (!b2 && q.2 == k ==> occ_at(i, q, x, b0, b1, true, b3) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k)) && (!b3 && q.3 == Some(k) ==> occ_at(i, q, x, b0, b1, b2, true) == occ_at(i, q, x, b0, b1, b2, b3) + one(x == k)) by {
        assert(cntm(m, x, q) == occ_at(i, q, x, b0, b1, b2, b3)); occ_put(i, q, x, b0, b1, b2, b3, k);
    }
}
pub proof fn collect_skip<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&I::Resource, BlankSignature<I::Resource>>)
    requires collecting(i, s, rest, q, b0, b1, b2, b3, m)
    ensures !anon(i, q.0) ==> collecting(i, s, rest, q, true, b1, b2, b3, m), !anon(i, q.1) ==> collecting(i, s, rest, q, b0, true, b2, b3, m),
        !anon(i, q.2) ==> collecting(i, s, rest, q, b0, b1, true, b3, m), q.3 is None || !anon(i, q.3->0) ==> collecting(i, s, rest, q, b0, b1, b2, true, m),
        b0 && b1 && b2 && b3 ==> collected(i, s, rest, m)
{}
pub proof fn collect_steps<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>)
    ensures
        forall|rest: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&I::Resource, BlankSignature<I::Resource>>, k: &I::Resource, l: BlankSignature<I::Resource>|
            #![trigger collecting(i, s, rest, q, b0, b1, b2, b3, m), m.insert(k, l)] collecting(i, s, rest, q, b0, b1, b2, b3, m) && anon(i, k) && sig_put(m, k, q, l)
            ==> (!b0 && q.0 == k ==> collecting(i, s, rest, q, true, b1, b2, b3, m.insert(k, l))) && (!b1 && q.1 == k ==> collecting(i, s, rest, q, b0, true, b2, b3, m.insert(k, l)))
                && (!b2 && q.2 == k ==> collecting(i, s, rest, q, b0, b1, true, b3, m.insert(k, l))) && (!b3 && q.3 == Some(k) ==> collecting(i, s, rest, q, b0, b1, b2, true, m.insert(k, l))),
        forall|rest: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&I::Resource, BlankSignature<I::Resource>>|
            #[trigger] collecting(i, s, rest, q, b0, b1, b2, b3, m)
            ==> (!b0 && !anon(i, q.0) ==> collecting(i, s, rest, q, true, b1, b2, b3, m)) && (!b1 && !anon(i, q.1) ==> collecting(i, s, rest, q, b0, true, b2, b3, m))
                && (!b2 && !anon(i, q.2) ==> collecting(i, s, rest, q, b0, b1, true, b3, m)) && (!b3 && (q.3 is None || !anon(i, q.3->0)) ==> collecting(i, s, rest, q, b0, b1, b2, true, m))
                && (b0 && b1 && b2 && b3 ==> collected(i, s, rest, m))
{
    assert forall|rest: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&I::Resource, BlankSignature<I::Resource>>, k: &I::Resource, l: BlankSignature<I::Resource>|
            #![trigger collecting(i, s, rest, q, b0, b1, b2, b3, m), m.insert(k, l)] collecting(i, s, rest, q, b0, b1, b2, b3, m) && anon(i, k) && sig_put(m, k, q, l)
            implies (!b0 && q.0 == k ==> collecting(i, s, rest, q, true, b1, b2, b3, m.insert(k, l))) && (!b1 && q.1 == k ==> collecting(i, s, rest, q, b0, true, b2, b3, m.insert(k, l)))
                && (!b2 && q.2 == k ==> collecting(i, s, rest, q, b0, b1, true, b3, m.insert(k, l))) && (!b3 && q.3 == Some(k) ==> collecting(i, s, rest, q, b0, b1, b2, true, m.insert(k, l))) by {
        collect_put(i, s, rest, q, b0, b1, b2, b3, m, k, l);
    }
    assert forall|rest: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>, b0: bool, b1: bool, b2: bool, b3: bool, m: Map<&I::Resource, BlankSignature<I::Resource>>|
            #[trigger] collecting(i, s, rest, q, b0, b1, b2, b3, m)
            implies (!b0 && !anon(i, q.0) ==> collecting(i, s, rest, q, true, b1, b2, b3, m)) && (!b1 && !anon(i, q.1) ==> collecting(i, s, rest, q, b0, true, b2, b3, m))
                && (!b2 && !anon(i, q.2) ==> collecting(i, s, rest, q, b0, b1, true, b3, m)) && (!b3 && (q.3 is None || !anon(i, q.3->0)) ==> collecting(i, s, rest, q, b0, b1, b2, true, m))
                && (b0 && b1 && b2 && b3 ==> collected(i, s, rest, m)) by {
        collect_skip(i, s, rest, q, b0, b1, b2, b3, m);
    }
}
pub proof fn collect_end<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, m: Map<&I::Resource, BlankSignature<I::Resource>>)
    requires collected(i, s, rest, m), rest.len() == 0
    ensures sigs(i, s, m)
{
    broadcast use group_to_multiset_ensures;
    assert forall|x: &I::Resource| #[trigger] m.contains_key(x) <==> among(i, s, x) by {
        if m.contains_key(x) { let q = m[x].0@[0]; assert(m[x].0@.contains(q)); assert(cntm(m, x, q) > 0); }
        if among(i, s, x) { let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && occ(i, q, x) > 0; assert(cntm(m, x, q) > 0); }
    }
    assert forall|x: &I::Resource, q: Quad<&I::Resource>| m.contains_key(x) implies #[trigger] m[x].0@.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 }) by { assert(cntm(m, x, q) == m[x].0@.to_multiset().count(q)); }
}
pub proof fn collect_ends<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>)
    ensures forall|rest: Seq<Quad<&I::Resource>>, m: Map<&I::Resource, BlankSignature<I::Resource>>| #[trigger] collected(i, s, rest, m) && rest.len() == 0 ==> sigs(i, s, m),
        forall|m: Map<&I::Resource, BlankSignature<I::Resource>>, m2: Map<&I::Resource, BlankSignature<I::Resource>>| #[trigger] resorted(m, m2) && sigs(i, s, m) ==> sigs(i, s, m2)
{
    assert forall|rest: Seq<Quad<&I::Resource>>, m: Map<&I::Resource, BlankSignature<I::Resource>>| #[trigger] collected(i, s, rest, m) && rest.len() == 0 implies sigs(i, s, m) by { collect_end(i, s, rest, m); }
    assert forall|m: Map<&I::Resource, BlankSignature<I::Resource>>, m2: Map<&I::Resource, BlankSignature<I::Resource>>| #[trigger] resorted(m, m2) && sigs(i, s, m) implies sigs(i, s, m2) by {
        assert forall|x: &I::Resource| #[trigger] m2.contains_key(x) <==> m.contains_key(x) by { assert(m.dom().contains(x) <==> m2.dom().contains(x)); }
        assert forall|x: &I::Resource, q: Quad<&I::Resource>| m2.contains_key(x) implies #[trigger] m2[x].0@.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 }) by { assert(m.contains_key(x)); assert(m[x].0@.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 })); }
    }
}
pub open spec fn closed<'x, I: Names>(i: &I, m: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>) -> bool {
    &&& forall|x: &I::Resource| #[trigger] m.contains_key(x) ==> anon(i, x)
    &&& forall|x: &I::Resource, q: Quad<&I::Resource>, y: &I::Resource| #![trigger m[x].0@.contains(q), occ(i, q, y)] m.contains_key(x) && m[x].0@.contains(q) && occ(i, q, y) > 0 ==> m.contains_key(y) && m[y].0@.contains(q)
}
pub proof fn sigs_closed<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, m: Map<&I::Resource, BlankSignature<I::Resource>>)
    requires sigs(i, s, m)
    ensures closed(i, m), forall|x: &I::Resource, q: Quad<&I::Resource>| m.contains_key(x) && #[trigger] m[x].0@.contains(q) ==> s.contains(q),
        forall|x: &I::Resource, q: Quad<&I::Resource>| #![trigger s.contains(q), occ(i, q, x)] s.contains(q) && occ(i, q, x) > 0 ==> m.contains_key(x) && m[x].0@.contains(q)
{
    broadcast use group_to_multiset_ensures;
    assert forall|x: &I::Resource| #[trigger] m.contains_key(x) implies anon(i, x) by { assert(among(i, s, x)); }
    assert forall|x: &I::Resource, q: Quad<&I::Resource>| m.contains_key(x) && #[trigger] m[x].0@.contains(q) implies s.contains(q) by { assert(m[x].0@.to_multiset().count(q) > 0); }
    assert forall|x: &I::Resource, q: Quad<&I::Resource>| #![trigger s.contains(q), occ(i, q, x)] s.contains(q) && occ(i, q, x) > 0 implies m.contains_key(x) && m[x].0@.contains(q) by {
        assert(among(i, s, x)); assert(m[x].0@.to_multiset().count(q) > 0);
    }
}
pub open spec fn wf<I: Names>(i: &I, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>) -> bool {
    inverse(f, b) && forall|x: &I::Resource| #[trigger] f.contains_key(x) ==> anon(i, x) && anon(i, f[x])
}
pub open spec fn extends<R>(t: Map<&R, &R>, f: Map<&R, &R>) -> bool { forall|x: &R| #[trigger] f.contains_key(x) ==> t.contains_key(x) && t[x] == f[x] }
// t relates the signatures of am and bm
pub open spec fn good<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, t: Map<&'x I::Resource, &'x I::Resource>) -> bool {
    &&& inj(t)
    &&& forall|x: &I::Resource| #[trigger] t.contains_key(x) <==> am.contains_key(x)
    &&& forall|x: &I::Resource| #[trigger] t.contains_key(x) ==> anon(i, t[x]) && bm.contains_key(t[x]) && am[x].0@.map_values(|q: Quad<&I::Resource>| img(t, q)).to_multiset() == bm[t[x]].0@.to_multiset()
    &&& forall|y: &I::Resource| #[trigger] bm.contains_key(y) ==> exists|x: &I::Resource| #[trigger] t.contains_key(x) && t[x] == y
}
// renaming keeps quads apart, and occurrences
pub open spec fn renames<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>) -> bool {
    (forall|x: &I::Resource| #[trigger] t.contains_key(x) <==> among(i, s, x)) && (forall|x: &I::Resource| #[trigger] t.contains_key(x) ==> anon(i, t[x])) && inj(t)
}
pub proof fn img_inj<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires renames(i, s, t)
    ensures forall|q: Quad<&I::Resource>, p: Quad<&I::Resource>| #![trigger img(t, q), img(t, p)] s.contains(q) && s.contains(p) && img(t, q) == img(t, p) ==> q == p,
        forall|q: Quad<&I::Resource>, x: &I::Resource| #![trigger img(t, q), t[x]] s.contains(q) && t.contains_key(x) ==> occ(i, img(t, q), t[x]) == occ(i, q, x),
        forall|q: Quad<&I::Resource>| #![trigger img(t, q)] s.contains(q) ==> bc(i, img(t, q)) == bc(i, q) && (bc(i, q) == 0 ==> img(t, q) == q)
{
    assert forall|q: Quad<&I::Resource>, c: &I::Resource| #![trigger s.contains(q), anon(i, c)] s.contains(q) && anon(i, c) && (q.0 == c || q.1 == c || q.2 == c || q.3 == Some(c)) implies t.contains_key(c) by {
        assert(occ(i, q, c) > 0); assert(among(i, s, c));
    }
    assert forall|x: &I::Resource| #[trigger] t.contains_key(x) implies anon(i, x) by { assert(among(i, s, x)); }
    assert forall|q: Quad<&I::Resource>, p: Quad<&I::Resource>| #![trigger img(t, q), img(t, p)] s.contains(q) && s.contains(p) && img(t, q) == img(t, p) implies q == p by {
        assert(anon(i, q.0) ==> t.contains_key(q.0)); assert(anon(i, p.0) ==> t.contains_key(p.0));
        assert(anon(i, q.1) ==> t.contains_key(q.1)); assert(anon(i, p.1) ==> t.contains_key(p.1));
        assert(anon(i, q.2) ==> t.contains_key(q.2)); assert(anon(i, p.2) ==> t.contains_key(p.2));
        if q.3 is Some { assert(anon(i, q.3->0) ==> t.contains_key(q.3->0)); }
        if p.3 is Some { assert(anon(i, p.3->0) ==> t.contains_key(p.3->0)); }
    }
    assert forall|q: Quad<&I::Resource>, x: &I::Resource| #![trigger img(t, q), t[x]] s.contains(q) && t.contains_key(x) implies occ(i, img(t, q), t[x]) == occ(i, q, x) by {
        assert(anon(i, q.0) ==> t.contains_key(q.0));
        assert(anon(i, q.1) ==> t.contains_key(q.1));
        assert(anon(i, q.2) ==> t.contains_key(q.2));
        if q.3 is Some { assert(anon(i, q.3->0) ==> t.contains_key(q.3->0)); }
    }
    assert forall|q: Quad<&I::Resource>| #![trigger img(t, q)] s.contains(q) implies bc(i, img(t, q)) == bc(i, q) && (bc(i, q) == 0 ==> img(t, q) == q) by {
        assert(anon(i, q.0) ==> t.contains_key(q.0));
        assert(anon(i, q.1) ==> t.contains_key(q.1));
        assert(anon(i, q.2) ==> t.contains_key(q.2));
        if q.3 is Some { assert(anon(i, q.3->0) ==> t.contains_key(q.3->0)); }
    }
}
// the bag of the signature of x, renamed, is that of the signature of t[x]
pub proof fn iso_bag<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, x: &I::Resource, l: Seq<Quad<&I::Resource>>, k: Seq<Quad<&I::Resource>>)
    requires iso(i, s, u, t), t.contains_key(x),
        forall|q: Quad<&I::Resource>| #[trigger] l.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 }),
        forall|q: Quad<&I::Resource>| #[trigger] k.to_multiset().count(q) == (if u.contains(q) { occ(i, q, t[x]) } else { 0 }),
    ensures l.map_values(|q: Quad<&I::Resource>| img(t, q)).to_multiset() == k.to_multiset()
{
    let m = |q: Quad<&I::Resource>| img(t, q);
    assert forall|v: Quad<&I::Resource>| #[trigger] l.map_values(m).to_multiset().count(v) == k.to_multiset().count(v) by {
        if u.contains(v) {
            let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && img(t, q) == v;
            iso_count(i, s, u, t, x, l, q);
        } else { iso_none(i, s, u, t, x, l, v); }
    }
    assert(l.map_values(m).to_multiset() =~= k.to_multiset());
}
pub proof fn listed_in<A>(l: Seq<A>, q: A)
    ensures l.contains(q) <==> l.to_multiset().count(q) > 0
{ broadcast use group_to_multiset_ensures; }
pub proof fn iso_count<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, x: &I::Resource, l: Seq<Quad<&I::Resource>>, q: Quad<&I::Resource>)
    requires iso(i, s, u, t), t.contains_key(x), s.contains(q),
        forall|q: Quad<&I::Resource>| #[trigger] l.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 }),
    ensures l.map_values(|q: Quad<&I::Resource>| img(t, q)).to_multiset().count(img(t, q)) == occ(i, img(t, q), t[x])
{
    let m = |q: Quad<&I::Resource>| img(t, q);
    img_inj(i, s, t);
    assert forall|y: Quad<&I::Resource>| #[trigger] l.contains(y) && m(y) == m(q) implies y == q by { listed_in(l, y); assert(img(t, y) == img(t, q)); }
    count_inj(l, m, q);
    assert(m(q) == img(t, q));
    assert(l.to_multiset().count(q) == occ(i, q, x));
}
pub proof fn iso_none<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, x: &I::Resource, l: Seq<Quad<&I::Resource>>, v: Quad<&I::Resource>)
    requires iso(i, s, u, t), !u.contains(v),
        forall|q: Quad<&I::Resource>| #[trigger] l.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 }),
    ensures l.map_values(|q: Quad<&I::Resource>| img(t, q)).to_multiset().count(v) == 0
{
    let m = |q: Quad<&I::Resource>| img(t, q);
    let lm = l.map_values(m);
    if lm.contains(v) {
        let j = choose|j: int| 0 <= j < lm.len() && lm[j] == v;
        listed_in(l, l[j]); assert(l.contains(l[j])); assert(s.contains(l[j]));
        assert(lm[j] == m(l[j]));
    }
    listed_in(lm, v);
}
pub proof fn iso_good<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires iso(i, s, u, t), sigs(i, s, am), sigs(i, u, bm)
    ensures good(i, am, bm, t)
{
    hide(iso); hide(sigs);
    good_dom(i, s, u, am, t);
    assert forall|x: &I::Resource| #[trigger] t.contains_key(x) implies anon(i, t[x]) && bm.contains_key(t[x]) && am[x].0@.map_values(|q: Quad<&I::Resource>| img(t, q)).to_multiset() == bm[t[x]].0@.to_multiset() by { good_at(i, s, u, am, bm, t, x); }
    assert forall|y: &I::Resource| #[trigger] bm.contains_key(y) implies exists|x: &I::Resource| #[trigger] t.contains_key(x) && t[x] == y by { good_onto(i, s, u, am, bm, t, y); }
}
pub proof fn good_dom<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, am: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires iso(i, s, u, t), sigs(i, s, am)
    ensures inj(t), forall|x: &I::Resource| #[trigger] t.contains_key(x) <==> am.contains_key(x)
{}
pub proof fn good_at<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>, x: &I::Resource)
    requires iso(i, s, u, t), sigs(i, s, am), sigs(i, u, bm), t.contains_key(x)
    ensures anon(i, t[x]), bm.contains_key(t[x]), am[x].0@.map_values(|q: Quad<&I::Resource>| img(t, q)).to_multiset() == bm[t[x]].0@.to_multiset()
{
    assert(among(i, s, x)); assert(am.contains_key(x));
    let q0 = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && occ(i, q, x) > 0;
    iso_occurs(i, s, u, t, x, q0);
    iso_bag(i, s, u, t, x, am[x].0@, bm[t[x]].0@);
}
pub proof fn good_onto<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>, y: &I::Resource)
    requires iso(i, s, u, t), sigs(i, u, bm), bm.contains_key(y)
    ensures exists|x: &I::Resource| #[trigger] t.contains_key(x) && t[x] == y
{
    assert(among(i, u, y));
    let v = choose|v: Quad<&I::Resource>| #[trigger] u.contains(v) && occ(i, v, y) > 0;
    let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && img(t, q) == v;
    preimage(i, s, u, t, q, y);
}
pub proof fn iso_occurs<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, x: &I::Resource, q: Quad<&I::Resource>)
    requires iso(i, s, u, t), t.contains_key(x), s.contains(q), occ(i, q, x) > 0
    ensures among(i, u, t[x])
{
    img_inj(i, s, t);
    assert(u.contains(img(t, q))); assert(occ(i, img(t, q), t[x]) > 0);
}
// a blank node of the image is the image of one
pub proof fn preimage<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, q: Quad<&I::Resource>, y: &I::Resource)
    requires iso(i, s, u, t), s.contains(q), occ(i, img(t, q), y) > 0
    ensures exists|x: &I::Resource| #[trigger] t.contains_key(x) && t[x] == y
{
    let v = img(t, q);
    assert(anon(i, y));
    if v.0 == y { if anon(i, q.0) { assert(occ(i, q, q.0) > 0); assert(among(i, s, q.0)); assert(t.contains_key(q.0)); } assert(t.contains_key(q.0)); }
    else if v.1 == y { if anon(i, q.1) { assert(occ(i, q, q.1) > 0); assert(among(i, s, q.1)); assert(t.contains_key(q.1)); } assert(t.contains_key(q.1)); }
    else if v.2 == y { if anon(i, q.2) { assert(occ(i, q, q.2) > 0); assert(among(i, s, q.2)); assert(t.contains_key(q.2)); } assert(t.contains_key(q.2)); }
    else { let g = q.3->0; if anon(i, g) { assert(occ(i, q, g) > 0); assert(among(i, s, g)); assert(t.contains_key(g)); } assert(t.contains_key(g)); }
}
pub proof fn good_len<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires good(i, am, bm, t)
    ensures forall|x: &I::Resource| #[trigger] t.contains_key(x) ==> am[x].0@.len() == bm[t[x]].0@.len()
{
    broadcast use group_to_multiset_ensures;
    assert forall|x: &I::Resource| #[trigger] t.contains_key(x) implies am[x].0@.len() == bm[t[x]].0@.len() by {
        let s = am[x].0@.map_values(|q: Quad<&I::Resource>| img(t, q));
        assert(s.to_multiset().len() == s.len()); assert(bm[t[x]].0@.to_multiset().len() == bm[t[x]].0@.len());
    }
}
// a partial bijection that t extends classifies the signatures of x and t[x] alike
pub proof fn good_bags<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, x: &I::Resource)
    requires good(i, am, bm, t), closed(i, am), wf(i, f, b), extends(t, f), am.contains_key(x)
    ensures bag_a(i, f, am[x].0@) == bag_b(i, b, bm[t[x]].0@)
{
    let l = am[x].0@; let m = |q: Quad<&I::Resource>| img(t, q); let c = fb(i, b); let d = fa(i, f);
    assert(t.contains_key(x));
    perm_map(l.map_values(m), bm[t[x]].0@, c);
    assert forall|j: int| 0 <= j < l.len() implies d(l[j]) == c(m(l[j])) by {
        let q = l[j];
        assert(l.contains(q));
        same_class(i, am, t, f, b, x, q, q.0); same_class(i, am, t, f, b, x, q, q.1); same_class(i, am, t, f, b, x, q, q.2);
        if q.3 is Some { same_class(i, am, t, f, b, x, q, q.3->0); }
    }
    assert(l.map_values(m).map_values(c) =~= l.map_values(d));
}
pub proof fn same_class<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, x: &I::Resource, q: Quad<&I::Resource>, r: &I::Resource)
    requires inj(t), forall|x: &I::Resource| #[trigger] t.contains_key(x) <==> am.contains_key(x), forall|x: &I::Resource| #[trigger] t.contains_key(x) ==> anon(i, t[x]),
        closed(i, am), wf(i, f, b), extends(t, f), am.contains_key(x), am[x].0@.contains(q), q.0 == r || q.1 == r || q.2 == r || q.3 == Some(r)
    ensures ca(i, f, r) == cb(i, b, rename(t, r))
{
    if anon(i, r) {
        assert(occ(i, q, r) > 0); assert(am.contains_key(r)); assert(t.contains_key(r));
        if f.contains_key(r) { assert(b.contains_key(f[r])); }
        else if b.contains_key(t[r]) { let a = b[t[r]]; assert(f.contains_key(a)); assert(t[a] == t[r]); assert(a == r); }
    } else {
        assert(!am.contains_key(r)); assert(!t.contains_key(r));
    }
}
// ---- the search
pub open spec fn covered<I: Names>(i: &I, f: Map<&I::Resource, &I::Resource>, q: Quad<&I::Resource>) -> bool { forall|y: &I::Resource| #[trigger] occ(i, q, y) > 0 ==> f.contains_key(y) }
// what is renamed already is there
pub open spec fn sound<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, f: Map<&'x I::Resource, &'x I::Resource>) -> bool {
    forall|x: &I::Resource, q: Quad<&I::Resource>| #[trigger] am[x].0@.contains(q) && am.contains_key(x) && covered(i, f, q) ==> exists|y: &I::Resource| #[trigger] bm.contains_key(y) && bm[y].0@.contains(img(f, q))
}
pub open spec fn within<R>(f: Map<&R, &R>, am: Map<&R, BlankSignature<R>>, bm: Map<&R, BlankSignature<R>>) -> bool { forall|x: &R| #[trigger] f.contains_key(x) ==> am.contains_key(x) && bm.contains_key(f[x]) }
pub proof fn wf_insert<I: Names>(i: &I, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, x: &I::Resource, y: &I::Resource)
    requires wf(i, f, b), anon(i, x), anon(i, y), !f.contains_key(x), !b.contains_key(y)
    ensures wf(i, f.insert(x, y), b.insert(y, x))
{
}
// the classes of a quad without unmapped blank nodes say what it is renamed to
pub proof fn classes_say<I: Names>(i: &I, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, q: Quad<&I::Resource>, v: Quad<&I::Resource>)
    requires wf(i, f, b), covered(i, f, q), qa(i, f, q) == qb(i, b, v)
    ensures v == img(f, q)
{
    if anon(i, q.0) { assert(occ(i, q, q.0) > 0); } if anon(i, q.1) { assert(occ(i, q, q.1) > 0); } if anon(i, q.2) { assert(occ(i, q, q.2) > 0); }
    if q.3 is Some && anon(i, q.3->0) { assert(occ(i, q, q.3->0) > 0); }
}
pub proof fn sound_insert<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, x: &I::Resource, y: &I::Resource)
    requires closed(i, am), sound(i, am, bm, f), wf(i, f.insert(x, y), b), !f.contains_key(x), am.contains_key(x), bm.contains_key(y),
        bag_a(i, f.insert(x, y), am[x].0@) == bag_b(i, b, bm[y].0@)
    ensures sound(i, am, bm, f.insert(x, y))
{
    broadcast use group_to_multiset_ensures;
    let g = f.insert(x, y);
    assert forall|z: &I::Resource, q: Quad<&I::Resource>| #[trigger] am[z].0@.contains(q) && am.contains_key(z) && covered(i, g, q) implies exists|w: &I::Resource| #[trigger] bm.contains_key(w) && bm[w].0@.contains(img(g, q)) by {
        if occ(i, q, x) > 0 {
            assert(am[x].0@.contains(q));
            let l = am[x].0@; let k = bm[y].0@; let d = fa(i, g); let c = fb(i, b);
            let j = choose|j: int| 0 <= j < l.len() && l[j] == q;
            assert(l.map_values(d)[j] == d(q)); assert(l.map_values(d).contains(d(q)));
            assert(l.map_values(d).to_multiset().count(d(q)) > 0);
            assert(k.map_values(c).to_multiset().count(d(q)) > 0);
            assert(k.map_values(c).contains(d(q)));
            let n = choose|n: int| 0 <= n < k.map_values(c).len() && k.map_values(c)[n] == d(q);
            assert(k.contains(k[n]));
            classes_say(i, g, b, q, k[n]);
            assert(bm.contains_key(y));
        } else {
            assert forall|u: &I::Resource| #[trigger] occ(i, q, u) > 0 implies f.contains_key(u) by { assert(g.contains_key(u)); }
            assert(covered(i, f, q));
            assert(anon(i, x));
            assert(img(g, q) == img(f, q));
        }
    }
}
// the candidates still to come
pub open spec fn still<T>(s: Seq<&T>, y: T) -> bool { exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]) == y }
pub proof fn still_step<T>()
    ensures forall|s: Seq<&T>, k: T| #![trigger still(s.skip(1), k)] s.len() > 0 ==> (still(s, k) <==> *s[0] == k || still(s.skip(1), k)),
        forall|s: Seq<&T>, k: T| #[trigger] still(s, k) ==> s.len() > 0, forall|s: Seq<&T>| s.len() > 0 ==> still(s, *#[trigger] s[0])
{
    assert forall|s: Seq<&T>, k: T| #![trigger still(s.skip(1), k)] s.len() > 0 implies (still(s, k) <==> *s[0] == k || still(s.skip(1), k)) by {
        if still(s, k) { let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]) == k; if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
        if still(s.skip(1), k) { let j = choose|j: int| 0 <= j < s.skip(1).len() && *(#[trigger] s.skip(1)[j]) == k; assert(s[j + 1] == s.skip(1)[j]); }
    }
}
pub open spec fn eligible<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, f: Map<&'x I::Resource, &'x I::Resource>, rest: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>) -> bool {
    &&& forall|j: int| 0 <= j < rest.len() ==> am.contains_key(*(#[trigger] rest[j]).0) && !f.contains_key(*rest[j].0)
    &&& forall|j: int, y: &I::Resource| 0 <= j < rest.len() && #[trigger] rest[j].1@.contains(y) ==> bm.contains_key(y) && anon(i, y)
    &&& forall|j: int, k: int| 0 <= j < k < rest.len() ==> *(#[trigger] rest[j]).0 != *(#[trigger] rest[k]).0
}
pub open spec fn chosen<'x, R>(rest: Seq<(&'x &'x R, &'x BTreeSet<&'x R>)>, t: Map<&'x R, &'x R>) -> bool { forall|j: int| 0 <= j < rest.len() ==> (#[trigger] rest[j]).1@.contains(t[*rest[j].0]) }
pub open spec fn hopeless<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, f: Map<&'x I::Resource, &'x I::Resource>, rest: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>) -> bool {
    forall|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t) && extends(t, f) ==> !chosen(rest, t)
}
pub open spec fn refuted<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, f: Map<&'x I::Resource, &'x I::Resource>, rest: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>, x: &'x I::Resource, y: &'x I::Resource) -> bool {
    forall|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t) && extends(t, f) && t[x] == y ==> !chosen(rest, t)
}
pub proof fn search_at<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, f: Map<&'x I::Resource, &'x I::Resource>, b: Map<&'x I::Resource, &'x I::Resource>, r0: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>, y: &'x I::Resource)
    requires wf(i, f, b), closed(i, am), within(f, am, bm), sound(i, am, bm, f), eligible(i, am, bm, f, r0), r0.len() > 0, r0[0].1@.contains(y)
    ensures am.contains_key(*r0[0].0), bm.contains_key(y), b.contains_key(y) ==> refuted(i, am, bm, f, r0.skip(1), *r0[0].0, y),
        !b.contains_key(y) ==> wf(i, f.insert(*r0[0].0, y), b.insert(y, *r0[0].0)) && within(f.insert(*r0[0].0, y), am, bm) && eligible(i, am, bm, f.insert(*r0[0].0, y), r0.skip(1)),
        !b.contains_key(y) && bag_a(i, f.insert(*r0[0].0, y), am[*r0[0].0].0@) == bag_b(i, b.insert(y, *r0[0].0), bm[y].0@) ==> sound(i, am, bm, f.insert(*r0[0].0, y)),
        !b.contains_key(y) && bag_a(i, f.insert(*r0[0].0, y), am[*r0[0].0].0@) != bag_b(i, b.insert(y, *r0[0].0), bm[y].0@) ==> refuted(i, am, bm, f, r0.skip(1), *r0[0].0, y),
        hopeless(i, am, bm, f.insert(*r0[0].0, y), r0.skip(1)) ==> refuted(i, am, bm, f, r0.skip(1), *r0[0].0, y),
{
    hide(bag_a); hide(bag_b); hide(sound); hide(chosen); hide(good);
    let x = *r0[0].0; let r1 = r0.skip(1); let g = f.insert(x, y); let c = b.insert(y, x);
    assert(am.contains_key(x) && !f.contains_key(x)); assert(anon(i, x)); assert(anon(i, y) && bm.contains_key(y));
    if b.contains_key(y) {
        assert forall|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t) && extends(t, f) && t[x] == y implies !chosen(r1, t) by { taken(i, am, bm, f, b, t, x, y); }
    } else {
        wf_insert(i, f, b, x, y);
        assert forall|j: int| 0 <= j < r1.len() implies am.contains_key(*(#[trigger] r1[j]).0) && !g.contains_key(*r1[j].0) by { assert(r1[j] == r0[j + 1]); assert(*r0[0].0 != *r0[j + 1].0); }
        assert forall|j: int, y: &I::Resource| 0 <= j < r1.len() && #[trigger] r1[j].1@.contains(y) implies bm.contains_key(y) && anon(i, y) by { assert(r1[j] == r0[j + 1]); assert(r0[j + 1].1@.contains(y)); }
        assert forall|j: int, k: int| 0 <= j < k < r1.len() implies *(#[trigger] r1[j]).0 != *(#[trigger] r1[k]).0 by { assert(r1[j] == r0[j + 1] && r1[k] == r0[k + 1]); }
        if bag_a(i, g, am[x].0@) == bag_b(i, c, bm[y].0@) { sound_insert(i, am, bm, f, c, x, y); }
        else {
            assert forall|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t) && extends(t, f) && t[x] == y implies !chosen(r1, t) by { put_extends(i, am, bm, t, f, x, y); good_bags(i, am, bm, t, g, c, x); }
        }
    }
    if hopeless(i, am, bm, g, r1) {
        assert forall|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t) && extends(t, f) && t[x] == y implies !chosen(r1, t) by { put_extends(i, am, bm, t, f, x, y); }
    }
}
pub proof fn put_extends<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>, f: Map<&I::Resource, &I::Resource>, x: &I::Resource, y: &I::Resource)
    requires good(i, am, bm, t), extends(t, f), t[x] == y, am.contains_key(x)
    ensures extends(t, f.insert(x, y))
{ assert(t.contains_key(x)); }
pub proof fn taken<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, t: Map<&I::Resource, &I::Resource>, x: &I::Resource, y: &I::Resource)
    requires good(i, am, bm, t), extends(t, f), t[x] == y, am.contains_key(x), wf(i, f, b), b.contains_key(y), !f.contains_key(x)
    ensures false
{ let a = b[y]; assert(f.contains_key(a) && f[a] == y); assert(t.contains_key(a) && t[a] == y); assert(t.contains_key(x)); }
pub proof fn search_over<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, f: Map<&'x I::Resource, &'x I::Resource>, r0: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>)
    requires r0.len() > 0, forall|y: &I::Resource| #[trigger] r0[0].1@.contains(y) ==> refuted(i, am, bm, f, r0.skip(1), *r0[0].0, y)
    ensures hopeless(i, am, bm, f, r0)
{
    hide(good); hide(extends);
    assert forall|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t) && extends(t, f) implies !chosen(r0, t) by {
        if chosen(r0, t) {
            let y = t[*r0[0].0];
            assert(r0[0].1@.contains(y)); assert(refuted(i, am, bm, f, r0.skip(1), *r0[0].0, y));
            assert forall|j: int| 0 <= j < r0.skip(1).len() implies (#[trigger] r0.skip(1)[j]).1@.contains(t[*r0.skip(1)[j].0]) by { assert(r0.skip(1)[j] == r0[j + 1]); }
        }
    }
}
// ---- greedy matching: what is left of the other side
pub open spec fn somes<A, C>(o: Seq<Option<A>>, c: spec_fn(A) -> C) -> Multiset<C>
    decreases o.len()
{ if o.len() == 0 { Multiset::empty() } else { match o.last() { Some(a) => somes(o.drop_last(), c).insert(c(a)), None => somes(o.drop_last(), c) } } }
pub proof fn somes_take<A, C>(o: Seq<Option<A>>, c: spec_fn(A) -> C, k: int)
    requires 0 <= k < o.len(), o[k] is Some
    ensures somes(o, c) == somes(o.update(k, None), c).insert(c(o[k]->0))
    decreases o.len()
{
    let p = o.update(k, None);
    if k == o.len() - 1 { assert(p.drop_last() =~= o.drop_last()); }
    else {
        somes_take(o.drop_last(), c, k);
        assert(p.drop_last() =~= o.drop_last().update(k, None));
        assert(p.last() == o.last());
        assert(somes(o, c) =~= somes(p, c).insert(c(o[k]->0)));
    }
}
pub proof fn somes_none<A, C>(o: Seq<Option<A>>, c: spec_fn(A) -> C, x: C)
    requires forall|k: int| 0 <= k < o.len() && (#[trigger] o[k]) is Some ==> c(o[k]->0) != x
    ensures somes(o, c).count(x) == 0
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last();
        assert forall|k: int| 0 <= k < p.len() && (#[trigger] p[k]) is Some implies c(p[k]->0) != x by { assert(p[k] == o[k]); }
        somes_none(p, c, x);
    }
}
pub proof fn somes_all<A, C>(t: Seq<A>, o: Seq<Option<A>>, c: spec_fn(A) -> C)
    requires o.len() == t.len(), forall|k: int| 0 <= k < t.len() ==> #[trigger] o[k] == Some(t[k])
    ensures somes(o, c) == t.map_values(c).to_multiset()
    decreases o.len()
{
    broadcast use group_to_multiset_ensures;
    if o.len() == 0 { assert(t.map_values(c) =~= Seq::empty()); }
    else {
        let p = o.drop_last(); let t2 = t.drop_last();
        assert forall|k: int| 0 <= k < t2.len() implies #[trigger] p[k] == Some(t2[k]) by { assert(p[k] == o[k]); }
        somes_all(t2, p, c);
        assert(o.last() == Some(t.last()));
        assert(t.map_values(c) =~= t2.map_values(c).push(c(t.last())));
    }
}
pub proof fn take_step<A, C>(s: Seq<A>, n: int, c: spec_fn(A) -> C)
    requires 0 <= n < s.len()
    ensures s.take(n + 1).map_values(c).to_multiset() == s.take(n).map_values(c).to_multiset().insert(c(s[n])),
        s.take(n + 1).map_values(c).to_multiset().count(c(s[n])) <= s.map_values(c).to_multiset().count(c(s[n]))
{
    broadcast use group_to_multiset_ensures;
    let m = s.map_values(c);
    assert(s.take(n + 1).map_values(c) =~= s.take(n).map_values(c).push(c(s[n])));
    let a = s.take(n + 1).map_values(c); let b = s.skip(n + 1).map_values(c);
    assert(m =~= a + b);
    lemma_multiset_commutative(a, b);
}
// the state of a greedy matching of s with t: what is matched so far and what is left make t
pub open spec fn greedy<A, C>(s: Seq<A>, n: int, o: Seq<Option<A>>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C) -> bool {
    0 <= n <= s.len() && s.take(n).map_values(ca).to_multiset().add(somes(o, cb)) == t.map_values(cb).to_multiset()
}
pub open spec fn bags_eq<A, C>(s: Seq<A>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C) -> bool { s.map_values(ca).to_multiset() == t.map_values(cb).to_multiset() }
pub proof fn greedy_start<A, C>(s: Seq<A>, o: Seq<Option<A>>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C)
    requires o.len() == t.len(), forall|k: int| 0 <= k < t.len() ==> #[trigger] o[k] == Some(t[k])
    ensures greedy(s, 0, o, t, ca, cb)
{
    broadcast use group_to_multiset_ensures;
    somes_all(t, o, cb);
    assert(s.take(0).map_values(ca) =~= Seq::empty());
    assert(s.take(0).map_values(ca).to_multiset().add(somes(o, cb)) =~= somes(o, cb));
}
pub proof fn greedy_step<A, C>(s: Seq<A>, n: int, o: Seq<Option<A>>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C, k: int)
    requires greedy(s, n, o, t, ca, cb), n < s.len(), 0 <= k < o.len(), o[k] is Some, ca(s[n]) == cb(o[k]->0)
    ensures greedy(s, n + 1, o.update(k, None), t, ca, cb)
{
    take_step(s, n, ca); somes_take(o, cb, k);
    assert(s.take(n + 1).map_values(ca).to_multiset().add(somes(o.update(k, None), cb)) =~= s.take(n).map_values(ca).to_multiset().add(somes(o, cb)));
}
pub proof fn update_same<A>()
    ensures forall|o: Seq<A>, k: int, v: A| 0 <= k < o.len() && o[k] == v ==> #[trigger] o.update(k, v) == o
{
    assert forall|o: Seq<A>, k: int, v: A| 0 <= k < o.len() && o[k] == v implies #[trigger] o.update(k, v) == o by { assert(o.update(k, v) =~= o); }
}
pub proof fn greedy_first<A, C>(s: Seq<A>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C)
    ensures forall|o: Seq<Option<A>>, n: int| #![trigger greedy(s, n, o, t, ca, cb)] n == 0 && o.len() == t.len() && (forall|k: int| 0 <= k < t.len() ==> #[trigger] o[k] == Some(t[k])) ==> greedy(s, n, o, t, ca, cb)
{
    assert forall|o: Seq<Option<A>>, n: int| #![trigger greedy(s, n, o, t, ca, cb)] n == 0 && o.len() == t.len() && (forall|k: int| 0 <= k < t.len() ==> #[trigger] o[k] == Some(t[k])) implies greedy(s, n, o, t, ca, cb) by { greedy_start(s, o, t, ca, cb); }
}
pub proof fn greedy_steps<A, C>(s: Seq<A>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C)
    ensures forall|o: Seq<Option<A>>, n: int, m: int, k: int| #![trigger greedy(s, n, o, t, ca, cb), greedy(s, m, o.update(k, None), t, ca, cb)]
        m == n + 1 && greedy(s, n, o, t, ca, cb) && n < s.len() && 0 <= k < o.len() && o[k] is Some && ca(s[n]) == cb(o[k]->0) ==> greedy(s, m, o.update(k, None), t, ca, cb)
{
    assert forall|o: Seq<Option<A>>, n: int, m: int, k: int| #![trigger greedy(s, n, o, t, ca, cb), greedy(s, m, o.update(k, None), t, ca, cb)]
        m == n + 1 && greedy(s, n, o, t, ca, cb) && n < s.len() && 0 <= k < o.len() && o[k] is Some && ca(s[n]) == cb(o[k]->0) implies greedy(s, m, o.update(k, None), t, ca, cb) by { greedy_step(s, n, o, t, ca, cb, k); }
}
pub proof fn greedy_stuck<A, C>(s: Seq<A>, n: int, o: Seq<Option<A>>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C)
    requires greedy(s, n, o, t, ca, cb), n < s.len(), forall|k: int| 0 <= k < o.len() && (#[trigger] o[k]) is Some ==> cb(o[k]->0) != ca(s[n])
    ensures !bags_eq(s, t, ca, cb)
{
    take_step(s, n, ca); somes_none(o, cb, ca(s[n]));
    let x = ca(s[n]);
    assert(t.map_values(cb).to_multiset().count(x) == s.take(n).map_values(ca).to_multiset().count(x));
}
pub proof fn greedy_done<A, C>(s: Seq<A>, o: Seq<Option<A>>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C)
    requires greedy(s, s.len() as int, o, t, ca, cb), s.len() == t.len()
    ensures bags_eq(s, t, ca, cb)
{
    broadcast use group_to_multiset_ensures;
    assert(s.take(s.len() as int) =~= s);
    let a = s.map_values(ca); let b = t.map_values(cb);
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    assert(a.to_multiset().add(somes(o, cb)).len() == a.to_multiset().len() + somes(o, cb).len());
    assert(somes(o, cb).len() == 0);
    assert(somes(o, cb) =~= Multiset::empty());
    assert(a.to_multiset() =~= b.to_multiset());
}
pub proof fn bags_len<A, C>(s: Seq<A>, t: Seq<A>, ca: spec_fn(A) -> C, cb: spec_fn(A) -> C)
    ensures bags_eq(s, t, ca, cb) ==> s.len() == t.len()
{
    broadcast use group_to_multiset_ensures;
    assert(s.map_values(ca).to_multiset().len() == s.len()); assert(t.map_values(cb).to_multiset().len() == t.len());
}
// ---- what an isomorphism preserves
pub proof fn iso_renames<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires iso(i, s, u, t)
    ensures renames(i, s, t), forall|x: &I::Resource| #[trigger] t.contains_key(x) ==> anon(i, x) && anon(i, t[x])
{ assert forall|x: &I::Resource| #[trigger] t.contains_key(x) implies anon(i, x) && anon(i, t[x]) by { assert(among(i, s, x)); } }
pub proof fn imgs_listed<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires renames(i, s, t), s.no_duplicates()
    ensures s.map_values(|q: Quad<&I::Resource>| img(t, q)).no_duplicates()
{
    img_inj(i, s, t);
    let m = |q: Quad<&I::Resource>| img(t, q); let l = s.map_values(m);
    assert forall|j: int, k: int| 0 <= j < l.len() && 0 <= k < l.len() && j != k implies l[j] != l[k] by { assert(s.contains(s[j]) && s.contains(s[k])); assert(l[j] == img(t, s[j]) && l[k] == img(t, s[k])); }
}
pub proof fn iso_counts<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires iso(i, s, u, t), s.no_duplicates(), u.no_duplicates()
    ensures s.len() == u.len(), bsum(i, s) == bsum(i, u), forall|q: Quad<&I::Resource>| bc(i, q) == 0 ==> (#[trigger] s.contains(q) <==> u.contains(q))
{
    iso_renames(i, s, u, t); img_inj(i, s, t); imgs_listed(i, s, t);
    let m = |q: Quad<&I::Resource>| img(t, q); let l = s.map_values(m);
    assert forall|v: Quad<&I::Resource>| #[trigger] l.contains(v) <==> u.contains(v) by {
        if l.contains(v) { let j = choose|j: int| 0 <= j < l.len() && l[j] == v; assert(s.contains(s[j])); assert(u.contains(img(t, s[j]))); }
        if u.contains(v) { let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && img(t, q) == v; let j = choose|j: int| 0 <= j < s.len() && s[j] == q; assert(l[j] == v); }
    }
    same_bag(l, u); bsum_perm(i, l, u); bsum_img(i, s, t);
    assert forall|q: Quad<&I::Resource>| bc(i, q) == 0 implies (#[trigger] s.contains(q) <==> u.contains(q)) by {
        if s.contains(q) { assert(img(t, q) == q); }
        if u.contains(q) { let p = choose|p: Quad<&I::Resource>| #[trigger] s.contains(p) && img(t, p) == q; assert(bc(i, img(t, p)) == bc(i, p)); assert(img(t, p) == p); }
    }
}
pub open spec fn noiso<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>) -> bool { forall|t: Map<&I::Resource, &I::Resource>| !#[trigger] iso(i, s, u, t) }
// a listing of the ground quads of s
pub open spec fn grounds<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, g: Seq<Quad<&I::Resource>>) -> bool { g.no_duplicates() && forall|q: Quad<&I::Resource>| #[trigger] g.contains(q) <==> s.contains(q) && bc(i, q) == 0 }
pub proof fn differ<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>)
    requires s.no_duplicates(), u.no_duplicates()
    ensures s.len() != u.len() ==> noiso(i, s, u), bsum(i, s) != bsum(i, u) ==> noiso(i, s, u),
        (exists|q: Quad<&I::Resource>| bc(i, q) == 0 && s.contains(q) != #[trigger] u.contains(q)) ==> noiso(i, s, u),
        forall|g: Seq<Quad<&I::Resource>>, h: Seq<Quad<&I::Resource>>| #[trigger] grounds(i, s, g) && #[trigger] grounds(i, u, h) && g.len() != h.len() ==> noiso(i, s, u)
{
    if exists|t: Map<&I::Resource, &I::Resource>| #[trigger] iso(i, s, u, t) {
        let t = choose|t: Map<&I::Resource, &I::Resource>| #[trigger] iso(i, s, u, t);
        iso_counts(i, s, u, t);
        assert forall|g: Seq<Quad<&I::Resource>>, h: Seq<Quad<&I::Resource>>| #[trigger] grounds(i, s, g) && #[trigger] grounds(i, u, h) implies g.len() == h.len() by {
            assert forall|q: Quad<&I::Resource>| #[trigger] g.contains(q) <==> h.contains(q) by { assert(s.contains(q) && bc(i, q) == 0 <==> u.contains(q) && bc(i, q) == 0); }
            same_bag(g, h);
        }
    }
}
// ---- groups of signatures by size
pub open spec fn groups<R>(m: Map<&R, BlankSignature<R>>, g: Map<usize, BTreeMap<&R, &BlankSignature<R>>>) -> bool {
    &&& forall|n: usize| #[trigger] g.contains_key(n) ==> exists|x: &R| #[trigger] g[n]@.contains_key(x)
    &&& forall|n: usize, x: &R| g.contains_key(n) && #[trigger] g[n]@.contains_key(x) ==> m.contains_key(x) && m[x].0@.len() == n && *g[n]@[x] == m[x]
    &&& forall|x: &R| #[trigger] m.contains_key(x) ==> exists|n: usize| n == m[x].0@.len() && #[trigger] g.contains_key(n) && g[n]@.contains_key(x)
}
// the same, but for the entries still to come
pub open spec fn pending<K, V>(s: Seq<(&K, &V)>, k: K) -> bool { exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k }
pub proof fn pending_step<K, V>()
    ensures forall|s: Seq<(&K, &V)>, k: K| #![trigger pending(s.skip(1), k)] s.len() > 0 ==> (pending(s, k) <==> *s[0].0 == k || pending(s.skip(1), k)),
        forall|s: Seq<(&K, &V)>, k: K| #[trigger] pending(s, k) ==> s.len() > 0
{
    assert forall|s: Seq<(&K, &V)>, k: K| #![trigger pending(s.skip(1), k)] s.len() > 0 implies (pending(s, k) <==> *s[0].0 == k || pending(s.skip(1), k)) by {
        if pending(s, k) { let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k; if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
        if pending(s.skip(1), k) { let j = choose|j: int| 0 <= j < s.skip(1).len() && *(#[trigger] s.skip(1)[j]).0 == k; assert(s[j + 1] == s.skip(1)[j]); }
    }
}
pub open spec fn grouping<R>(m: Map<&R, BlankSignature<R>>, s: Seq<(&&R, &BlankSignature<R>)>, g: Map<usize, BTreeMap<&R, &BlankSignature<R>>>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> m.contains_key(*(#[trigger] s[j]).0) && m[*s[j].0] == *s[j].1
    &&& forall|n: usize| #[trigger] g.contains_key(n) ==> exists|x: &R| #[trigger] g[n]@.contains_key(x)
    &&& forall|n: usize, x: &R| g.contains_key(n) && #[trigger] g[n]@.contains_key(x) ==> m.contains_key(x) && m[x].0@.len() == n && *g[n]@[x] == m[x]
    &&& forall|x: &R| #[trigger] m.contains_key(x) ==> pending(s, x) || exists|n: usize| n == m[x].0@.len() && #[trigger] g.contains_key(n) && g[n]@.contains_key(x)
}
pub open spec fn put_in<'x, R>(g: Map<usize, BTreeMap<&'x R, &'x BlankSignature<'x, R>>>, n: usize, x: &'x R, l: &'x BlankSignature<'x, R>, mm: BTreeMap<&'x R, &'x BlankSignature<'x, R>>) -> bool {
    mm@ == (if g.contains_key(n) { g[n]@ } else { Map::empty() }).insert(x, l)
}
pub proof fn grouping_step<R>(m: Map<&R, BlankSignature<R>>, s: Seq<(&&R, &BlankSignature<R>)>, g: Map<usize, BTreeMap<&R, &BlankSignature<R>>>, n: usize, mm: BTreeMap<&R, &BlankSignature<R>>)
    requires grouping(m, s, g), s.len() > 0, n == s[0].1.0@.len(), put_in(g, n, *s[0].0, s[0].1, mm)
    ensures grouping(m, s.skip(1), g.insert(n, mm))
{
    pending_step::<&R, BlankSignature<R>>();
    let g2 = g.insert(n, mm); let s2 = s.skip(1);
    assert forall|j: int| 0 <= j < s2.len() implies m.contains_key(*(#[trigger] s2[j]).0) && m[*s2[j].0] == *s2[j].1 by { assert(s2[j] == s[j + 1]); }
    assert(m.contains_key(*s[0].0));
    assert(mm@.contains_key(*s[0].0));
    assert forall|k: usize| #[trigger] g2.contains_key(k) implies exists|x: &R| #[trigger] g2[k]@.contains_key(x) by {
        if k == n { assert(g2[k]@.contains_key(*s[0].0)); } else { assert(g.contains_key(k)); let x = choose|x: &R| #[trigger] g[k]@.contains_key(x); assert(g2[k]@.contains_key(x)); }
    }
    assert forall|k: usize, x: &R| g2.contains_key(k) && #[trigger] g2[k]@.contains_key(x) implies m.contains_key(x) && m[x].0@.len() == k && *g2[k]@[x] == m[x] by {
        if k != n { assert(g.contains_key(k)); assert(g[k]@.contains_key(x)); } else if x != *s[0].0 { assert(g.contains_key(k)); assert(g[k]@.contains_key(x)); }
    }
    assert forall|x: &R| #[trigger] m.contains_key(x) implies pending(s2, x) || exists|k: usize| k == m[x].0@.len() && #[trigger] g2.contains_key(k) && g2[k]@.contains_key(x) by {
        if !pending(s2, x) {
            if x == *s[0].0 { assert(g2.contains_key(n)); }
            else { assert(!pending(s, x)); let k = choose|k: usize| k == m[x].0@.len() && #[trigger] g.contains_key(k) && g[k]@.contains_key(x); assert(g2.contains_key(k)); assert(g2[k]@.contains_key(x)); }
        }
    }
}
pub proof fn grouping_steps<R>(m: Map<&R, BlankSignature<R>>)
    ensures forall|s: Seq<(&&R, &BlankSignature<R>)>, g: Map<usize, BTreeMap<&R, &BlankSignature<R>>>, n: usize, mm: BTreeMap<&R, &BlankSignature<R>>| #![trigger grouping(m, s, g), g.insert(n, mm)]
        grouping(m, s, g) && s.len() > 0 && n == s[0].1.0@.len() && put_in(g, n, *s[0].0, s[0].1, mm) ==> grouping(m, s.skip(1), g.insert(n, mm))
{
    assert forall|s: Seq<(&&R, &BlankSignature<R>)>, g: Map<usize, BTreeMap<&R, &BlankSignature<R>>>, n: usize, mm: BTreeMap<&R, &BlankSignature<R>>| #![trigger grouping(m, s, g), g.insert(n, mm)]
        grouping(m, s, g) && s.len() > 0 && n == s[0].1.0@.len() && put_in(g, n, *s[0].0, s[0].1, mm) implies grouping(m, s.skip(1), g.insert(n, mm)) by { grouping_step(m, s, g, n, mm); }
}
pub open spec fn unlike<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>) -> bool { forall|t: Map<&I::Resource, &I::Resource>| !#[trigger] good(i, am, bm, t) }
pub proof fn dom_size<R>(t: Map<&R, &R>, b: Set<&R>)
    requires inj(t), forall|x: &R| #[trigger] t.contains_key(x) ==> b.contains(t[x]), forall|y: &R| #[trigger] b.contains(y) ==> exists|x: &R| #[trigger] t.contains_key(x) && t[x] == y
    ensures t.dom().len() == b.len()
{
    let f = |x: &R| t[x];
    assert(t.dom().map(f) =~= b);
    vstd::set_lib::lemma_map_size(t.dom(), b, f);
}
pub proof fn good_counts<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>)
    ensures am.dom().len() != bm.dom().len() ==> unlike(i, am, bm),
        forall|g: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, h: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>| #[trigger] groups(am, g) && #[trigger] groups(bm, h) && g.dom() != h.dom() ==> unlike(i, am, bm)
{
    hide(groups); hide(good);
    if exists|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t) {
        let t = choose|t: Map<&I::Resource, &I::Resource>| #[trigger] good(i, am, bm, t);
        good_dom_len(i, am, bm, t);
        assert forall|g: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, h: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>| #[trigger] groups(am, g) && #[trigger] groups(bm, h) implies g.dom() == h.dom() by {
            assert forall|n: usize| g.contains_key(n) == #[trigger] h.contains_key(n) by { if g.contains_key(n) { same_group(i, am, bm, t, g, h, n); } if h.contains_key(n) { same_group_back(i, am, bm, t, g, h, n); } }
            assert(g.dom() =~= h.dom());
        }
    }
}
pub proof fn good_dom_len<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires good(i, am, bm, t)
    ensures am.dom().len() == bm.dom().len()
{ dom_size(t, bm.dom()); assert(t.dom() =~= am.dom()); }
pub proof fn same_group<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>, g: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, h: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, n: usize)
    requires good(i, am, bm, t), groups(am, g), groups(bm, h), g.contains_key(n)
    ensures h.contains_key(n)
{
    good_len(i, am, bm, t);
    let x = choose|x: &I::Resource| #[trigger] g[n]@.contains_key(x); assert(am.contains_key(x)); assert(t.contains_key(x)); assert(bm.contains_key(t[x])); assert(bm[t[x]].0@.len() == n);
}
pub proof fn same_group_back<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, t: Map<&I::Resource, &I::Resource>, g: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, h: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, n: usize)
    requires good(i, am, bm, t), groups(am, g), groups(bm, h), h.contains_key(n)
    ensures g.contains_key(n)
{
    good_len(i, am, bm, t);
    let y = choose|y: &I::Resource| #[trigger] h[n]@.contains_key(y); assert(bm.contains_key(y)); let x = choose|x: &I::Resource| #[trigger] t.contains_key(x) && t[x] == y; assert(am.contains_key(x)); assert(am[x].0@.len() == n);
}
// ---- the candidates of x: the blank nodes whose signature has the same classes
pub open spec fn likes<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, x: &'x I::Resource, y: &'x I::Resource) -> bool {
    bm.contains_key(y) && bag_a(i, Map::empty(), am[x].0@) == bag_b(i, Map::empty(), bm[y].0@)
}
pub proof fn likes_len<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>)
    ensures forall|x: &I::Resource, y: &I::Resource| #[trigger] likes(i, am, bm, x, y) ==> am[x].0@.len() == bm[y].0@.len()
{
    assert forall|x: &I::Resource, y: &I::Resource| #[trigger] likes(i, am, bm, x, y) implies am[x].0@.len() == bm[y].0@.len() by {
        bags_len(am[x].0@, bm[y].0@, fa(i, Map::empty()), fb(i, Map::empty()));
    }
}
pub proof fn good_likes<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>)
    requires closed(i, am)
    ensures forall|t: Map<&I::Resource, &I::Resource>, x: &I::Resource| #[trigger] good(i, am, bm, t) && #[trigger] am.contains_key(x) ==> likes(i, am, bm, x, t[x])
{
    assert forall|t: Map<&I::Resource, &I::Resource>, x: &I::Resource| #[trigger] good(i, am, bm, t) && #[trigger] am.contains_key(x) implies likes(i, am, bm, x, t[x]) by {
        assert(t.contains_key(x));
        good_bags(i, am, bm, t, Map::empty(), Map::empty(), x);
    }
}
// ---- the conclusion
pub proof fn all_of<A>(l: Seq<A>, u: Seq<A>)
    requires l.no_duplicates(), u.no_duplicates(), l.len() == u.len(), forall|x: A| #[trigger] l.contains(x) ==> u.contains(x)
    ensures forall|x: A| #[trigger] u.contains(x) ==> l.contains(x)
{
    l.unique_seq_to_set(); u.unique_seq_to_set();
    assert(l.to_set().subset_of(u.to_set()));
    vstd::set_lib::lemma_subset_equality(l.to_set(), u.to_set());
    assert forall|x: A| #[trigger] u.contains(x) implies l.contains(x) by { assert(u.to_set().contains(x)); assert(l.to_set().contains(x)); }
}
pub proof fn conclude<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>)
    requires s.no_duplicates(), u.no_duplicates(), s.len() == u.len(), sigs(i, s, am), sigs(i, u, bm), am.dom().len() == bm.dom().len(),
        wf(i, f, b), within(f, am, bm), f.dom() == am.dom(), sound(i, am, bm, f), forall|q: Quad<&I::Resource>| #[trigger] s.contains(q) && bc(i, q) == 0 ==> u.contains(q)
    ensures iso(i, s, u, f), b.dom() == bm.dom()
{
    sigs_closed(i, s, am); sigs_closed(i, u, bm);
    assert forall|x: &I::Resource| #[trigger] f.contains_key(x) <==> among(i, s, x) by { assert(f.dom().contains(x) <==> am.dom().contains(x)); assert(am.contains_key(x) <==> among(i, s, x)); }
    assert forall|x: &I::Resource, y: &I::Resource| #![trigger f[x], f[y]] f.contains_key(x) && f.contains_key(y) && f[x] == f[y] implies x == y by { assert(b[f[x]] == x && b[f[y]] == y); }
    assert(renames(i, s, f));
    img_inj(i, s, f);
    assert forall|q: Quad<&I::Resource>| #[trigger] s.contains(q) implies u.contains(img(f, q)) by { image_in(i, s, u, am, bm, f, q); }
    let m = |q: Quad<&I::Resource>| img(f, q); let l = s.map_values(m);
    imgs_listed(i, s, f);
    assert forall|v: Quad<&I::Resource>| #[trigger] l.contains(v) implies u.contains(v) by { let j = choose|j: int| 0 <= j < l.len() && l[j] == v; assert(s.contains(s[j])); }
    all_of(l, u);
    assert forall|v: Quad<&I::Resource>| #[trigger] u.contains(v) implies exists|q: Quad<&I::Resource>| #[trigger] s.contains(q) && img(f, q) == v by {
        assert(l.contains(v)); let j = choose|j: int| 0 <= j < l.len() && l[j] == v; assert(s.contains(s[j])); assert(img(f, s[j]) == v);
    }
    assert forall|y: &I::Resource| #[trigger] b.dom().contains(y) implies bm.dom().contains(y) by { assert(b.contains_key(y)); assert(f.contains_key(b[y])); }
    assert forall|y: &I::Resource| #[trigger] b.dom().contains(y) implies exists|x: &I::Resource| #[trigger] f.contains_key(x) && f[x] == y by { assert(b.contains_key(y)); assert(f.contains_key(b[y])); }
    dom_size(f, b.dom());
    vstd::set_lib::lemma_subset_equality(b.dom(), bm.dom());
}
pub proof fn image_in<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, f: Map<&I::Resource, &I::Resource>, q: Quad<&I::Resource>)
    requires sigs(i, s, am), sigs(i, u, bm), renames(i, s, f), f.dom() == am.dom(), sound(i, am, bm, f), forall|q: Quad<&I::Resource>| #[trigger] s.contains(q) && bc(i, q) == 0 ==> u.contains(q), s.contains(q)
    ensures u.contains(img(f, q))
{
    sigs_closed(i, s, am); sigs_closed(i, u, bm); img_inj(i, s, f);
    if bc(i, q) == 0 { assert(img(f, q) == q); }
    else {
        let x = if anon(i, q.0) { q.0 } else if anon(i, q.1) { q.1 } else if anon(i, q.2) { q.2 } else { q.3->0 };
        assert(occ(i, q, x) > 0);
        assert(am.contains_key(x) && am[x].0@.contains(q));
        assert forall|y: &I::Resource| #[trigger] occ(i, q, y) > 0 implies f.contains_key(y) by { assert(among(i, s, y)); }
        assert(covered(i, f, q));
        let y = choose|y: &I::Resource| #[trigger] bm.contains_key(y) && bm[y].0@.contains(img(f, q));
    }
}
// ---- isomorphism is reflexive and symmetric
pub open spec fn add_id<'x, I: Names>(i: &I, m: Map<&'x I::Resource, &'x I::Resource>, r: &'x I::Resource) -> Map<&'x I::Resource, &'x I::Resource> { if anon(i, r) { m.insert(r, r) } else { m } }
pub open spec fn ids<'x, I: Names>(i: &I, s: Seq<Quad<&'x I::Resource>>) -> Map<&'x I::Resource, &'x I::Resource>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else {
        let q = s.last();
        let m = add_id(i, add_id(i, add_id(i, ids(i, s.drop_last()), q.0), q.1), q.2);
        match q.3 { Some(g) => add_id(i, m, g), None => m }
    }
}
pub proof fn ids_dom<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>)
    ensures forall|x: &I::Resource| #[trigger] ids(i, s).contains_key(x) <==> among(i, s, x), forall|x: &I::Resource| #[trigger] ids(i, s).contains_key(x) ==> ids(i, s)[x] == x
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let l = s.last();
        ids_dom(i, p);
        assert(s.contains(l)); assert(l == s[s.len() - 1]);
        let m = ids(i, p); let n = ids(i, s);
        assert forall|x: &I::Resource| #[trigger] n.contains_key(x) <==> m.contains_key(x) || occ(i, l, x) > 0 by {
            let m1 = add_id(i, m, l.0); let m2 = add_id(i, m1, l.1); let m3 = add_id(i, m2, l.2);
            assert(m1.contains_key(x) <==> m.contains_key(x) || (anon(i, x) && x == l.0));
            assert(m2.contains_key(x) <==> m1.contains_key(x) || (anon(i, x) && x == l.1));
            assert(m3.contains_key(x) <==> m2.contains_key(x) || (anon(i, x) && x == l.2));
            assert(n.contains_key(x) <==> m3.contains_key(x) || (anon(i, x) && l.3 == Some(x)));
        }
        assert forall|x: &I::Resource| #[trigger] n.contains_key(x) implies n[x] == x by {
            let m1 = add_id(i, m, l.0); let m2 = add_id(i, m1, l.1); let m3 = add_id(i, m2, l.2);
            assert(m.contains_key(x) ==> m[x] == x);
            assert(m1.contains_key(x) ==> m1[x] == x); assert(m2.contains_key(x) ==> m2[x] == x); assert(m3.contains_key(x) ==> m3[x] == x);
        }
        assert forall|x: &I::Resource| among(i, s, x) <==> #[trigger] among(i, p, x) || occ(i, l, x) > 0 by {
            if among(i, s, x) { let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && occ(i, q, x) > 0; let j = choose|j: int| 0 <= j < s.len() && s[j] == q; if j < p.len() { assert(p[j] == q); assert(p.contains(q)); } }
            if occ(i, l, x) > 0 { assert(s.contains(l)); }
            if among(i, p, x) { let q = choose|q: Quad<&I::Resource>| #[trigger] p.contains(q) && occ(i, q, x) > 0; let j = choose|j: int| 0 <= j < p.len() && p[j] == q; assert(s[j] == q); assert(s.contains(q)); }
        }
    }
}
pub proof fn iso_refl<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>)
    ensures !noiso(i, s, s)
{
    let f = ids(i, s);
    ids_dom(i, s);
    assert forall|x: &I::Resource| #[trigger] f.contains_key(x) implies anon(i, f[x]) by { assert(among(i, s, x)); }
    assert forall|q: Quad<&I::Resource>| #[trigger] img(f, q) == q by {}
    assert(iso(i, s, s, f));
}
pub proof fn iso_sym<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>)
    requires !noiso(i, s, u)
    ensures !noiso(i, u, s)
{
    hide(iso);
    let t = choose|t: Map<&I::Resource, &I::Resource>| #[trigger] iso(i, s, u, t);
    iso_inj(i, s, u, t); inverses(t);
    let b = choose|b: Map<&I::Resource, &I::Resource>| #[trigger] inverse(t, b);
    iso_inverse(i, s, u, t, b);
}
pub proof fn iso_inj<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>)
    requires iso(i, s, u, t)
    ensures inj(t)
{}
pub proof fn inverses<R>(t: Map<&R, &R>)
    requires inj(t)
    ensures exists|b: Map<&R, &R>| #[trigger] inverse(t, b)
{
    let d = t.dom().map(|x: &R| t[x]);
    let b = Map::new(d, |y: &R| choose|x: &R| #[trigger] t.contains_key(x) && t[x] == y);
    assert forall|y: &R| #[trigger] b.contains_key(y) implies t.contains_key(b[y]) && t[b[y]] == y by {
        assert(d.contains(y)); let x = choose|x: &R| t.dom().contains(x) && t[x] == y; assert(t.contains_key(x));
    }
    assert forall|x: &R| #[trigger] t.contains_key(x) implies b.contains_key(t[x]) && b[t[x]] == x by { assert(t.dom().contains(x)); assert(d.contains(t[x])); }
    assert(inverse(t, b));
}
pub proof fn iso_inverse<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>)
    requires iso(i, s, u, t), inverse(t, b)
    ensures iso(i, u, s, b)
{
    iso_renames(i, s, u, t); img_inj(i, s, t);
    assert forall|y: &I::Resource| #[trigger] b.contains_key(y) <==> among(i, u, y) by {
        if b.contains_key(y) { let x = b[y]; assert(t.contains_key(x)); assert(among(i, s, x)); let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && occ(i, q, x) > 0; iso_occurs(i, s, u, t, x, q); }
        if among(i, u, y) { let v = choose|v: Quad<&I::Resource>| #[trigger] u.contains(v) && occ(i, v, y) > 0; let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && img(t, q) == v; preimage(i, s, u, t, q, y); }
    }
    assert forall|x: &I::Resource, y: &I::Resource| #![trigger b[x], b[y]] b.contains_key(x) && b.contains_key(y) && b[x] == b[y] implies x == y by { assert(t[b[x]] == x && t[b[y]] == y); }
    assert forall|q: Quad<&I::Resource>| s.contains(q) implies img(b, #[trigger] img(t, q)) == q by { back(i, s, u, t, b, q); }
    assert forall|v: Quad<&I::Resource>| #[trigger] u.contains(v) implies s.contains(img(b, v)) by { let q = choose|q: Quad<&I::Resource>| #[trigger] s.contains(q) && img(t, q) == v; }
    assert forall|q: Quad<&I::Resource>| #[trigger] s.contains(q) implies exists|v: Quad<&I::Resource>| #[trigger] u.contains(v) && img(b, v) == q by { assert(u.contains(img(t, q))); }
}
pub proof fn back<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, q: Quad<&I::Resource>)
    requires iso(i, s, u, t), inverse(t, b), s.contains(q)
    ensures img(b, img(t, q)) == q
{
    iso_renames(i, s, u, t);
    back_one(i, s, t, b, q, q.0); back_one(i, s, t, b, q, q.1); back_one(i, s, t, b, q, q.2);
    if q.3 is Some { back_one(i, s, t, b, q, q.3->0); }
}
pub proof fn back_one<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, t: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>, q: Quad<&I::Resource>, r: &I::Resource)
    requires renames(i, s, t), inverse(t, b), s.contains(q), q.0 == r || q.1 == r || q.2 == r || q.3 == Some(r)
    ensures rename(b, rename(t, r)) == r
{
    if anon(i, r) { assert(occ(i, q, r) > 0); assert(among(i, s, r)); assert(t.contains_key(r)); }
    else {
        if t.contains_key(r) { assert(among(i, s, r)); }
        if b.contains_key(r) { assert(t.contains_key(b[r])); assert(anon(i, t[b[r]])); }
    }
}
// ---- find_bijection_with: the ground quads
pub open spec fn matching<'x, I: Names>(i: &I, s: Seq<Quad<&'x I::Resource>>, u: Seq<Quad<&'x I::Resource>>, rest: Seq<Quad<&'x I::Resource>>, bg: Seq<Quad<&'x I::Resource>>) -> bool {
    &&& rest.no_duplicates()
    &&& forall|q: Quad<&I::Resource>| #[trigger] rest.contains(q) ==> s.contains(q) && bc(i, q) == 0
    &&& forall|q: Quad<&I::Resource>| #[trigger] s.contains(q) && bc(i, q) == 0 && !rest.contains(q) ==> u.contains(q)
    &&& forall|q: Quad<&I::Resource>| #[trigger] bg.contains(q) ==> u.contains(q)
    &&& forall|q: Quad<&I::Resource>| #[trigger] u.contains(q) && bc(i, q) == 0 && !bg.contains(q) ==> s.contains(q) && !rest.contains(q)
}
pub proof fn same_ground<I: Names>(i: &I, q: Quad<&I::Resource>, v: Quad<&I::Resource>)
    requires bc(i, q) == 0
    ensures qa(i, Map::empty(), q) == qb(i, Map::empty(), v) <==> q == v
{}
pub proof fn reversed<A>(s: Seq<A>, r: Seq<A>)
    requires r.len() == s.len(), forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == s[s.len() - 1 - j], s.no_duplicates()
    ensures r.no_duplicates(), forall|x: A| #[trigger] r.contains(x) <==> s.contains(x)
{
    assert forall|x: A| #[trigger] r.contains(x) <==> s.contains(x) by {
        if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; assert(s[s.len() - 1 - j] == x); }
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(r[s.len() - 1 - j] == s[j]); }
    }
    assert forall|j: int, k: int| 0 <= j < r.len() && 0 <= k < r.len() && j != k implies r[j] != r[k] by { assert(s[s.len() - 1 - j] != s[s.len() - 1 - k]); }
}
pub proof fn match_start<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, ag: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>)
    requires grounds(i, s, ag), grounds(i, u, bg), rest.len() == ag.len(), forall|j: int| 0 <= j < rest.len() ==> #[trigger] rest[j] == ag[ag.len() - 1 - j]
    ensures matching(i, s, u, rest, bg)
{ reversed(ag, rest); }
pub proof fn match_step<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>, k: int)
    requires matching(i, s, u, rest, bg), rest.len() > 0, 0 <= k < bg.len(), qa(i, Map::empty(), rest[0]) == qb(i, Map::empty(), bg[k])
    ensures matching(i, s, u, rest.skip(1), bg.remove(k))
{
    let q0 = rest[0]; let r2 = rest.skip(1); let b2 = bg.remove(k);
    assert(rest.contains(q0)); same_ground(i, q0, bg[k]);
    assert(bg.contains(bg[k]));
    assert forall|p: Quad<&I::Resource>| #[trigger] rest.contains(p) <==> p == q0 || r2.contains(p) by {
        if rest.contains(p) { let j = choose|j: int| 0 <= j < rest.len() && rest[j] == p; if j > 0 { assert(r2[j - 1] == p); } }
        if r2.contains(p) { let j = choose|j: int| 0 <= j < r2.len() && r2[j] == p; assert(rest[j + 1] == p); }
    }
    assert(!r2.contains(q0)) by { if r2.contains(q0) { let j = choose|j: int| 0 <= j < r2.len() && r2[j] == q0; assert(rest[j + 1] == q0); } }
    assert forall|p: Quad<&I::Resource>| #[trigger] r2.contains(p) implies s.contains(p) && bc(i, p) == 0 by { assert(rest.contains(p)); }
    assert forall|p: Quad<&I::Resource>| #[trigger] b2.contains(p) implies u.contains(p) by { let j = choose|j: int| 0 <= j < b2.len() && b2[j] == p; if j < k { assert(bg[j] == p); } else { assert(bg[j + 1] == p); } assert(bg.contains(p)); }
    assert forall|p: Quad<&I::Resource>| #[trigger] u.contains(p) && bc(i, p) == 0 && !b2.contains(p) implies s.contains(p) && !r2.contains(p) by {
        if p != q0 {
            if bg.contains(p) { let j = choose|j: int| 0 <= j < bg.len() && bg[j] == p; assert(j != k); if j < k { assert(b2[j] == p); } else { assert(b2[j - 1] == p); } }
            assert(!rest.contains(p));
        }
    }
}
pub proof fn match_stuck<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>)
    requires matching(i, s, u, rest, bg), rest.len() > 0, forall|k: int| 0 <= k < bg.len() ==> qa(i, Map::empty(), rest[0]) != qb(i, Map::empty(), #[trigger] bg[k]), s.no_duplicates(), u.no_duplicates()
    ensures noiso(i, s, u)
{
    let q0 = rest[0];
    assert(rest.contains(q0));
    if bg.contains(q0) { let k = choose|k: int| 0 <= k < bg.len() && bg[k] == q0; same_ground(i, q0, bg[k]); }
    assert(s.contains(q0) != u.contains(q0)) by { if u.contains(q0) { assert(!bg.contains(q0)); } }
    differ(i, s, u);
}
pub open spec fn kept<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>) -> bool { forall|q: Quad<&I::Resource>| #[trigger] s.contains(q) && bc(i, q) == 0 ==> u.contains(q) }
pub proof fn match_facts<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>)
    requires s.no_duplicates(), u.no_duplicates()
    ensures forall|rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>, k: int| #![trigger matching(i, s, u, rest, bg), bg.remove(k)] matching(i, s, u, rest, bg) && rest.len() > 0 && 0 <= k < bg.len() && qa(i, Map::empty(), rest[0]) == qb(i, Map::empty(), bg[k])
            ==> matching(i, s, u, rest.skip(1), bg.remove(k)),
        forall|rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>| #[trigger] matching(i, s, u, rest, bg) && rest.len() > 0 && (forall|k: int| 0 <= k < bg.len() ==> qa(i, Map::empty(), rest[0]) != qb(i, Map::empty(), #[trigger] bg[k])) ==> noiso(i, s, u),
        forall|rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>| #[trigger] matching(i, s, u, rest, bg) && rest.len() == 0 ==> kept(i, s, u),
{
    assert forall|rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>, k: int| #![trigger matching(i, s, u, rest, bg), bg.remove(k)] matching(i, s, u, rest, bg) && rest.len() > 0 && 0 <= k < bg.len() && qa(i, Map::empty(), rest[0]) == qb(i, Map::empty(), bg[k])
        implies matching(i, s, u, rest.skip(1), bg.remove(k)) by { match_step(i, s, u, rest, bg, k); }
    assert forall|rest: Seq<Quad<&I::Resource>>, bg: Seq<Quad<&I::Resource>>| #[trigger] matching(i, s, u, rest, bg) && rest.len() > 0 && (forall|k: int| 0 <= k < bg.len() ==> qa(i, Map::empty(), rest[0]) != qb(i, Map::empty(), #[trigger] bg[k])) implies noiso(i, s, u) by { match_stuck(i, s, u, rest, bg); }
}
// the sums
pub proof fn folded<I: Names, F: Fn(usize, Quad<&I::Resource>) -> usize>(i: &I, f: F)
    requires forall|c: usize, q: Quad<&I::Resource>, m: usize| #[trigger] call_ensures(f, (c, q), m) ==> m == c + bc(i, q)
    ensures forall|acc: usize, s: Seq<Quad<&I::Resource>>, r: usize| #[trigger] folds(f, acc, s, r) ==> r == acc + bsum(i, s)
{
    assert forall|acc: usize, s: Seq<Quad<&I::Resource>>, r: usize| #[trigger] folds(f, acc, s, r) implies r == acc + bsum(i, s) by { folds_sum(i, f, acc, s, r); }
}
pub proof fn grounded<'x, I: Names, F: Fn(&Quad<&'x I::Resource>) -> bool>(i: &I, f: F, s: Seq<Quad<&'x I::Resource>>)
    requires forall|q: &Quad<&'x I::Resource>, o: bool| #[trigger] call_ensures(f, (q,), o) ==> o == (bc(i, *q) == 0)
    ensures forall|s0: Seq<Quad<&'x I::Resource>>, r: Seq<Quad<&'x I::Resource>>| #[trigger] filtered(f, s0, r) && s0.no_duplicates() && (forall|q: Quad<&I::Resource>| #[trigger] s0.contains(q) <==> s.contains(q)) ==> grounds(i, s, r)
{
    assert forall|s0: Seq<Quad<&'x I::Resource>>, r: Seq<Quad<&'x I::Resource>>| #[trigger] filtered(f, s0, r) && s0.no_duplicates() && (forall|q: Quad<&I::Resource>| #[trigger] s0.contains(q) <==> s.contains(q)) implies grounds(i, s, r) by {
        assert forall|q: Quad<&I::Resource>| #[trigger] r.contains(q) <==> s.contains(q) && bc(i, q) == 0 by { assert(s0.contains(q) <==> s.contains(q)); }
    }
}
pub proof fn sums<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>)
    requires s.no_duplicates()
    ensures forall|r: Seq<Quad<&I::Resource>>| r.no_duplicates() && (forall|q: Quad<&I::Resource>| #[trigger] r.contains(q) <==> s.contains(q)) ==> #[trigger] bsum(i, r) == bsum(i, s)
{
    assert forall|r: Seq<Quad<&I::Resource>>| r.no_duplicates() && (forall|q: Quad<&I::Resource>| #[trigger] r.contains(q) <==> s.contains(q)) implies #[trigger] bsum(i, r) == bsum(i, s) by { same_bag(r, s); bsum_perm(i, r, s); }
}
// ---- find_bijection_with: the candidates
pub open spec fn in_groups<'x, R>(rest: Seq<(usize, BTreeMap<&'x R, &'x BlankSignature<'x, R>>)>, x: &'x R) -> bool { exists|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).1@.contains_key(x) }
pub open spec fn in_group<'x, R>(rest: Seq<(&'x R, &'x BlankSignature<'x, R>)>, x: &'x R) -> bool { exists|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == x }
pub open spec fn likely<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, x: &'x I::Resource, l: Set<&'x I::Resource>) -> bool { forall|y: &I::Resource| #[trigger] l.contains(y) <==> likes(i, am, bm, x, y) }
pub open spec fn selecting<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>,
    rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>) -> bool {
    &&& forall|j: int| 0 <= j < rest.len() ==> h.contains_key((#[trigger] rest[j]).0)
    &&& forall|j: int, x: &I::Resource| 0 <= j < rest.len() && #[trigger] rest[j].1@.contains_key(x) ==> am.contains_key(x) && am[x].0@.len() == rest[j].0 && *rest[j].1@[x] == am[x]
    &&& forall|j: int| 0 <= j < rest2.len() ==> am.contains_key((#[trigger] rest2[j]).0) && am[rest2[j].0].0@.len() == n && *rest2[j].1 == am[rest2[j].0]
    &&& forall|x: &I::Resource| #[trigger] c.contains_key(x) ==> am.contains_key(x) && likely(i, am, bm, x, c[x]@)
    &&& forall|x: &I::Resource| #[trigger] am.contains_key(x) ==> c.contains_key(x) || in_groups(rest, x) || in_group(rest2, x)
}
pub proof fn select_start<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, g: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>,
    rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>)
    requires groups(am, g), entries(g, rest), forall|n: usize| #[trigger] g.contains_key(n) ==> h.contains_key(n)
    ensures selecting(i, am, bm, h, rest, 0, Seq::empty(), Map::empty())
{
    assert forall|j: int| 0 <= j < rest.len() implies h.contains_key((#[trigger] rest[j]).0) by { assert(g.contains_key(rest[j].0)); }
    assert forall|j: int, x: &I::Resource| 0 <= j < rest.len() && #[trigger] rest[j].1@.contains_key(x) implies am.contains_key(x) && am[x].0@.len() == rest[j].0 && *rest[j].1@[x] == am[x] by { assert(g.contains_key(rest[j].0)); assert(g[rest[j].0]@.contains_key(x)); }
    assert forall|x: &I::Resource| #[trigger] am.contains_key(x) implies in_groups(rest, x) by {
        let n = choose|n: usize| n == am[x].0@.len() && #[trigger] g.contains_key(n) && g[n]@.contains_key(x);
        let j = choose|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == n; assert(rest[j].1@.contains_key(x));
    }
}
pub proof fn select_open<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>,
    rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>)
    requires selecting(i, am, bm, h, rest, n, Seq::empty(), c), rest.len() > 0, entries(rest[0].1@, rest2)
    ensures selecting(i, am, bm, h, rest.skip(1), rest[0].0, rest2, c)
{
    let r1 = rest.skip(1);
    assert forall|j: int| 0 <= j < r1.len() implies h.contains_key((#[trigger] r1[j]).0) by { assert(r1[j] == rest[j + 1]); }
    assert forall|j: int, x: &I::Resource| 0 <= j < r1.len() && #[trigger] r1[j].1@.contains_key(x) implies am.contains_key(x) && am[x].0@.len() == r1[j].0 && *r1[j].1@[x] == am[x] by { assert(r1[j] == rest[j + 1]); assert(rest[j + 1].1@.contains_key(x)); }
    assert forall|j: int| 0 <= j < rest2.len() implies am.contains_key((#[trigger] rest2[j]).0) && am[rest2[j].0].0@.len() == rest[0].0 && *rest2[j].1 == am[rest2[j].0] by { assert(rest[0].1@.contains_key(rest2[j].0)); }
    assert forall|x: &I::Resource| #[trigger] am.contains_key(x) implies c.contains_key(x) || in_groups(r1, x) || in_group(rest2, x) by {
        assert(!in_group(Seq::empty(), x));
        if in_groups(rest, x) { let j = choose|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).1@.contains_key(x); if j > 0 { assert(r1[j - 1] == rest[j]); } else { let k = choose|k: int| 0 <= k < rest2.len() && (#[trigger] rest2[k]).0 == x; } }
    }
}
pub proof fn select_put<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>,
    rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>, l: BTreeSet<&'x I::Resource>)
    requires selecting(i, am, bm, h, rest, n, rest2, c), rest2.len() > 0, likely(i, am, bm, rest2[0].0, l@)
    ensures selecting(i, am, bm, h, rest, n, rest2.skip(1), c.insert(rest2[0].0, l))
{
    let r2 = rest2.skip(1); let c2 = c.insert(rest2[0].0, l);
    assert forall|j: int| 0 <= j < r2.len() implies am.contains_key((#[trigger] r2[j]).0) && am[r2[j].0].0@.len() == n && *r2[j].1 == am[r2[j].0] by { assert(r2[j] == rest2[j + 1]); }
    assert(am.contains_key(rest2[0].0));
    assert forall|x: &I::Resource| #[trigger] am.contains_key(x) implies c2.contains_key(x) || in_groups(rest, x) || in_group(r2, x) by {
        if in_group(rest2, x) { let j = choose|j: int| 0 <= j < rest2.len() && (#[trigger] rest2[j]).0 == x; if j > 0 { assert(r2[j - 1] == rest2[j]); } }
    }
}
pub proof fn select_facts<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>)
    ensures
        forall|rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>|
            #![trigger selecting(i, am, bm, h, rest, n, Seq::empty(), c), entries(rest[0].1@, rest2)] selecting(i, am, bm, h, rest, n, Seq::empty(), c) && rest.len() > 0 && entries(rest[0].1@, rest2) ==> selecting(i, am, bm, h, rest.skip(1), rest[0].0, rest2, c),
        forall|rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>, l: BTreeSet<&'x I::Resource>|
            #![trigger selecting(i, am, bm, h, rest, n, rest2, c), c.insert(rest2[0].0, l)] selecting(i, am, bm, h, rest, n, rest2, c) && rest2.len() > 0 && likely(i, am, bm, rest2[0].0, l@) ==> selecting(i, am, bm, h, rest, n, rest2.skip(1), c.insert(rest2[0].0, l)),
        forall|rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>|
            #[trigger] selecting(i, am, bm, h, rest, n, rest2, c) && rest2.len() == 0 ==> selecting(i, am, bm, h, rest, 0, Seq::empty(), c),
        forall|rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>|
            #[trigger] selecting(i, am, bm, h, rest, n, rest2, c) ==> (rest.len() > 0 ==> h.contains_key(rest[0].0)) && (rest2.len() > 0 ==> am.contains_key(rest2[0].0) && am[rest2[0].0].0@.len() == n && *rest2[0].1 == am[rest2[0].0]),
{
    assert forall|rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>|
        #![trigger selecting(i, am, bm, h, rest, n, Seq::empty(), c), entries(rest[0].1@, rest2)] selecting(i, am, bm, h, rest, n, Seq::empty(), c) && rest.len() > 0 && entries(rest[0].1@, rest2) implies selecting(i, am, bm, h, rest.skip(1), rest[0].0, rest2, c) by { select_open(i, am, bm, h, rest, n, rest2, c); }
    assert forall|rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>, l: BTreeSet<&'x I::Resource>|
        #![trigger selecting(i, am, bm, h, rest, n, rest2, c), c.insert(rest2[0].0, l)] selecting(i, am, bm, h, rest, n, rest2, c) && rest2.len() > 0 && likely(i, am, bm, rest2[0].0, l@) implies selecting(i, am, bm, h, rest, n, rest2.skip(1), c.insert(rest2[0].0, l)) by { select_put(i, am, bm, h, rest, n, rest2, c, l); }
    assert forall|rest: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>, n: usize, rest2: Seq<(&'x I::Resource, &'x BlankSignature<'x, I::Resource>)>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>|
        #[trigger] selecting(i, am, bm, h, rest, n, rest2, c) && rest2.len() == 0 implies selecting(i, am, bm, h, rest, 0, Seq::empty(), c) by {
        assert forall|x: &I::Resource| #[trigger] am.contains_key(x) implies c.contains_key(x) || in_groups(rest, x) by { assert(!in_group(rest2, x)); }
    }
}
// the candidates of x among those still to come
pub open spec fn choosing<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, x: &'x I::Resource, rest: Seq<(&'x &'x I::Resource, &'x &'x BlankSignature<'x, I::Resource>)>, l: Set<&'x I::Resource>) -> bool {
    &&& forall|j: int| 0 <= j < rest.len() ==> bm.contains_key(*(#[trigger] rest[j]).0) && **rest[j].1 == bm[*rest[j].0]
    &&& forall|y: &I::Resource| #[trigger] l.contains(y) ==> likes(i, am, bm, x, y)
    &&& forall|y: &I::Resource| #[trigger] likes(i, am, bm, x, y) ==> l.contains(y) || pending(rest, y)
}
pub proof fn choose_start<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>, n: usize, x: &'x I::Resource, rest: Seq<(&'x &'x I::Resource, &'x &'x BlankSignature<'x, I::Resource>)>)
    requires groups(bm, h), h.contains_key(n), am.contains_key(x), am[x].0@.len() == n, entry_refs(h[n]@, rest)
    ensures choosing(i, am, bm, x, rest, Set::empty())
{
    likes_len(i, am, bm);
    assert forall|j: int| 0 <= j < rest.len() implies bm.contains_key(*(#[trigger] rest[j]).0) && **rest[j].1 == bm[*rest[j].0] by { assert(h[n]@.contains_key(*rest[j].0)); }
    assert forall|y: &I::Resource| #[trigger] likes(i, am, bm, x, y) implies pending(rest, y) by {
        assert(bm.contains_key(y)); let k = choose|k: usize| k == bm[y].0@.len() && #[trigger] h.contains_key(k) && h[k]@.contains_key(y);
        assert(k == n); assert(h[n]@.contains_key(y));
        let j = choose|j: int| 0 <= j < rest.len() && *(#[trigger] rest[j]).0 == y;
    }
}
pub proof fn choose_facts<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, x: &'x I::Resource)
    ensures forall|rest: Seq<(&'x &'x I::Resource, &'x &'x BlankSignature<'x, I::Resource>)>, l: Set<&'x I::Resource>| #[trigger] choosing(i, am, bm, x, rest, l) && rest.len() > 0 ==>
            (if bag_a(i, Map::empty(), am[x].0@) == bag_b(i, Map::empty(), rest[0].1.0@) { choosing(i, am, bm, x, rest.skip(1), l.insert(*rest[0].0)) } else { choosing(i, am, bm, x, rest.skip(1), l) }),
        forall|rest: Seq<(&'x &'x I::Resource, &'x &'x BlankSignature<'x, I::Resource>)>, l: Set<&'x I::Resource>| #[trigger] choosing(i, am, bm, x, rest, l) && rest.len() == 0 ==> likely(i, am, bm, x, l),
{
    assert forall|rest: Seq<(&'x &'x I::Resource, &'x &'x BlankSignature<'x, I::Resource>)>, l: Set<&'x I::Resource>| #[trigger] choosing(i, am, bm, x, rest, l) && rest.len() > 0 implies
        (if bag_a(i, Map::empty(), am[x].0@) == bag_b(i, Map::empty(), rest[0].1.0@) { choosing(i, am, bm, x, rest.skip(1), l.insert(*rest[0].0)) } else { choosing(i, am, bm, x, rest.skip(1), l) }) by {
        choose_step(i, am, bm, x, rest, l);
    }
}
pub proof fn choose_step<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, x: &'x I::Resource, rest: Seq<(&'x &'x I::Resource, &'x &'x BlankSignature<'x, I::Resource>)>, l: Set<&'x I::Resource>)
    requires choosing(i, am, bm, x, rest, l), rest.len() > 0
    ensures if bag_a(i, Map::empty(), am[x].0@) == bag_b(i, Map::empty(), rest[0].1.0@) { choosing(i, am, bm, x, rest.skip(1), l.insert(*rest[0].0)) } else { choosing(i, am, bm, x, rest.skip(1), l) }
{
    hide(bag_a); hide(bag_b);
    pending_step::<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>();
    let r2 = rest.skip(1); let y0 = *rest[0].0;
    assert(bm.contains_key(y0) && **rest[0].1 == bm[y0]);
    assert(likes(i, am, bm, x, y0) <==> bag_a(i, Map::empty(), am[x].0@) == bag_b(i, Map::empty(), rest[0].1.0@));
    assert forall|j: int| 0 <= j < r2.len() implies bm.contains_key(*(#[trigger] r2[j]).0) && **r2[j].1 == bm[*r2[j].0] by { assert(r2[j] == rest[j + 1]); }
    assert forall|y: &I::Resource| #[trigger] likes(i, am, bm, x, y) implies y == y0 || l.contains(y) || pending(r2, y) by { assert(pending(rest, y) <==> y0 == y || pending(r2, y)); }
}
// no blank node is like x: there is no isomorphism
pub proof fn nothing_like<I: Names>(i: &I, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, x: &I::Resource)
    requires closed(i, am), am.contains_key(x)
    ensures forall|l: Set<&I::Resource>| #[trigger] likely(i, am, bm, x, l) && (forall|y: &I::Resource| !#[trigger] l.contains(y)) ==> unlike(i, am, bm)
{ good_likes(i, am, bm); assert forall|l: Set<&I::Resource>| #[trigger] likely(i, am, bm, x, l) && (forall|y: &I::Resource| !#[trigger] l.contains(y)) implies unlike(i, am, bm) by { assert forall|t: Map<&I::Resource, &I::Resource>| !#[trigger] good(i, am, bm, t) by { if good(i, am, bm, t) { assert(likes(i, am, bm, x, t[x])); assert(l.contains(t[x])); } } } }
pub proof fn no_good<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>, am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>)
    requires sigs(i, s, am), sigs(i, u, bm), unlike(i, am, bm)
    ensures noiso(i, s, u)
{
    hide(iso); hide(sigs); hide(good);
    assert forall|t: Map<&I::Resource, &I::Resource>| !#[trigger] iso(i, s, u, t) by { if iso(i, s, u, t) { iso_good(i, s, u, am, bm, t); } }
}
pub proof fn not_good<I: Names>(i: &I, s: Seq<Quad<&I::Resource>>, u: Seq<Quad<&I::Resource>>)
    ensures forall|am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>| #![trigger sigs(i, s, am), sigs(i, u, bm)] sigs(i, s, am) && sigs(i, u, bm) ==>
        closed(i, am) && closed(i, bm) && (unlike(i, am, bm) ==> noiso(i, s, u)) && (am.dom().len() != bm.dom().len() ==> noiso(i, s, u)),
        forall|am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, g: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, h: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>|
            #![trigger sigs(i, s, am), sigs(i, u, bm), groups(am, g), groups(bm, h)] sigs(i, s, am) && sigs(i, u, bm) && groups(am, g) && groups(bm, h) && g.dom() != h.dom() ==> noiso(i, s, u)
{
    hide(sigs); hide(closed); hide(unlike); hide(noiso); hide(groups);
    assert forall|am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>| #![trigger sigs(i, s, am), sigs(i, u, bm)] sigs(i, s, am) && sigs(i, u, bm) implies
        closed(i, am) && closed(i, bm) && (unlike(i, am, bm) ==> noiso(i, s, u)) && (am.dom().len() != bm.dom().len() ==> noiso(i, s, u)) by {
        sigs_closed(i, s, am); sigs_closed(i, u, bm); good_counts(i, am, bm);
        if unlike(i, am, bm) { no_good(i, s, u, am, bm); }
    }
    assert forall|am: Map<&I::Resource, BlankSignature<I::Resource>>, bm: Map<&I::Resource, BlankSignature<I::Resource>>, g: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>, h: Map<usize, BTreeMap<&I::Resource, &BlankSignature<I::Resource>>>|
        #![trigger sigs(i, s, am), sigs(i, u, bm), groups(am, g), groups(bm, h)] sigs(i, s, am) && sigs(i, u, bm) && groups(am, g) && groups(bm, h) && g.dom() != h.dom() implies noiso(i, s, u) by {
        good_counts(i, am, bm); no_good(i, s, u, am, bm);
    }
}
// the search starts from nothing
pub proof fn search_start<'x, I: Names>(i: &I, s: Seq<Quad<&'x I::Resource>>, u: Seq<Quad<&'x I::Resource>>, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>, over: Seq<(usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>)>)
    requires sigs(i, s, am), sigs(i, u, bm), selecting(i, am, bm, h, over, 0, Seq::empty(), c), over.len() == 0
    ensures sound(i, am, bm, Map::empty()), within(Map::empty(), am, bm), wf(i, Map::empty(), Map::empty()),
        forall|rest: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>| #[trigger] entry_refs(c, rest) ==> eligible(i, am, bm, Map::empty(), rest) && (hopeless(i, am, bm, Map::empty(), rest) ==> unlike(i, am, bm)) && forall|x: &I::Resource| #[trigger] pending(rest, x) <==> am.contains_key(x)
{
    sigs_closed(i, s, am); sigs_closed(i, u, bm); good_likes(i, am, bm);
    let e = Map::<&I::Resource, &I::Resource>::empty();
    assert forall|x: &I::Resource, q: Quad<&I::Resource>| #[trigger] am[x].0@.contains(q) && am.contains_key(x) && covered(i, e, q) implies false by {
        assert(am[x].0@.to_multiset().count(q) == (if s.contains(q) { occ(i, q, x) } else { 0 })); listed_in(am[x].0@, q);
        assert(occ(i, q, x) > 0);
    }
    assert forall|rest: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>| #[trigger] entry_refs(c, rest) implies eligible(i, am, bm, e, rest) && (hopeless(i, am, bm, e, rest) ==> unlike(i, am, bm)) && forall|x: &I::Resource| #[trigger] pending(rest, x) <==> am.contains_key(x) by {
        assert(over =~= Seq::empty()); eligible_start(i, am, bm, h, c, rest);
        if hopeless(i, am, bm, e, rest) {
            assert forall|t: Map<&I::Resource, &I::Resource>| !#[trigger] good(i, am, bm, t) by {
                if good(i, am, bm, t) {
                    assert(extends(t, e));
                    assert forall|j: int| 0 <= j < rest.len() implies (#[trigger] rest[j]).1@.contains(t[*rest[j].0]) by { assert(c.contains_key(*rest[j].0)); assert(am.contains_key(*rest[j].0)); assert(likes(i, am, bm, *rest[j].0, t[*rest[j].0])); }
                }
            }
        }
    }
}
pub proof fn eligible_start<'x, I: Names>(i: &I, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, h: Map<usize, BTreeMap<&'x I::Resource, &'x BlankSignature<'x, I::Resource>>>, c: Map<&'x I::Resource, BTreeSet<&'x I::Resource>>, rest: Seq<(&'x &'x I::Resource, &'x BTreeSet<&'x I::Resource>)>)
    requires closed(i, bm), selecting(i, am, bm, h, Seq::empty(), 0, Seq::empty(), c), entry_refs(c, rest)
    ensures eligible(i, am, bm, Map::empty(), rest), forall|x: &I::Resource| #[trigger] pending(rest, x) <==> am.contains_key(x)
{
    assert forall|j: int| 0 <= j < rest.len() implies am.contains_key(*(#[trigger] rest[j]).0) by { assert(c.contains_key(*rest[j].0)); }
    assert forall|j: int, y: &I::Resource| 0 <= j < rest.len() && #[trigger] rest[j].1@.contains(y) implies bm.contains_key(y) && anon(i, y) by { assert(c.contains_key(*rest[j].0)); assert(c[*rest[j].0]@.contains(y)); assert(likes(i, am, bm, *rest[j].0, y)); }
    assert forall|x: &I::Resource| #[trigger] pending(rest, x) <==> am.contains_key(x) by {
        if pending(rest, x) { let j = choose|j: int| 0 <= j < rest.len() && *(#[trigger] rest[j]).0 == x; assert(c.contains_key(x)); }
        if am.contains_key(x) { assert(!in_groups(Seq::empty(), x)); assert(!in_group(Seq::empty(), x)); assert(c.contains_key(x)); let j = choose|j: int| 0 <= j < rest.len() && *(#[trigger] rest[j]).0 == x; }
    }
}
pub proof fn concludes<'x, I: Names>(i: &I, s: Seq<Quad<&'x I::Resource>>, u: Seq<Quad<&'x I::Resource>>, am: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>, bm: Map<&'x I::Resource, BlankSignature<'x, I::Resource>>)
    requires s.no_duplicates(), u.no_duplicates(), s.len() == u.len(), sigs(i, s, am), sigs(i, u, bm), am.dom().len() == bm.dom().len(), kept(i, s, u)
    ensures forall|f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>| #[trigger] wf(i, f, b) && within(f, am, bm) && sound(i, am, bm, f) && (forall|x: &I::Resource| #[trigger] f.contains_key(x) <==> am.contains_key(x))
        ==> iso(i, s, u, f) && inverse(f, b) && forall|y: &I::Resource| #[trigger] b.contains_key(y) <==> among(i, u, y)
{
    hide(iso); hide(sound); hide(within); hide(inverse);
    assert forall|f: Map<&I::Resource, &I::Resource>, b: Map<&I::Resource, &I::Resource>| #[trigger] wf(i, f, b) && within(f, am, bm) && sound(i, am, bm, f) && (forall|x: &I::Resource| #[trigger] f.contains_key(x) <==> am.contains_key(x))
        implies iso(i, s, u, f) && inverse(f, b) && forall|y: &I::Resource| #[trigger] b.contains_key(y) <==> among(i, u, y) by {
        assert(f.dom() =~= am.dom());
        conclude(i, s, u, am, bm, f, b);
        assert forall|y: &I::Resource| #[trigger] b.contains_key(y) <==> among(i, u, y) by { assert(b.dom().contains(y) <==> bm.dom().contains(y)); assert(bm.contains_key(y) <==> among(i, u, y)); }
    }
}
