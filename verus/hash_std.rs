// ---- std::collections: HashMap and HashSet are a map and a set up to Eq, which here is equality of values
// (assumed: Eq and Hash of keys and values are lawful). Iteration yields each entry once, in some order.
pub trait Hash { }
pub trait Eq: PartialEq + Sized {
    proof fn eq_law() ensures <Self as PartialEqSpec>::obeys_eq_spec(), forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) == (a == b);
}
pub trait Default: Sized {
    spec fn blank(&self) -> bool;
    fn default() -> (r: Self) ensures r.blank();
}
pub open spec fn stepr<A>(before: Seq<A>, after: Seq<A>, r: Option<&A>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r is Some && *r->0 == before[0] && after == before.skip(1) }
}
pub open spec fn step<A>(before: Seq<A>, after: Seq<A>, r: Option<A>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r == Some(before[0]) && after == before.skip(1) }
}
// how often v occurs
pub open spec fn times<V>(s: Seq<V>, v: V) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { n(s[0] == v) + times(s.skip(1), v) } }
pub open spec fn n(b: bool) -> nat { if b { 1 } else { 0 } }
pub broadcast proof fn times_add<V>(a: Seq<V>, b: Seq<V>, v: V)
    ensures #[trigger] times(a + b, v) == times(a, v) + times(b, v)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).skip(1) =~= a.skip(1) + b); times_add(a.skip(1), b, v); }
}
pub broadcast proof fn skip_add<V>(a: Seq<V>, b: Seq<V>)
    ensures a.len() > 0 ==> #[trigger] (a + b).skip(1) == a.skip(1) + b, a.len() == 0 ==> a + b == b
{ if a.len() > 0 { assert((a + b).skip(1) =~= a.skip(1) + b); } else { assert(a + b =~= b); } }
pub broadcast proof fn empty_add<V>(a: Seq<V>, b: Seq<V>)
    ensures a.len() == 0 ==> #[trigger] (a + b) == b, b.len() == 0 ==> a + b == a
{ if a.len() == 0 { assert(a + b =~= b); } if b.len() == 0 { assert(a + b =~= a); } }
pub broadcast proof fn no_times<V>(s: Seq<V>, v: V)
    ensures s.len() == 0 ==> #[trigger] times(s, v) == 0
{ }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct HashSet<V> { v: Vec<V> }
impl<V> HashSet<V> {
    pub uninterp spec fn view(&self) -> Set<V>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: hash_set::Iter<'_, V>) ensures forall|v: V| #[trigger] times(r.rest(), v) == n(self@.contains(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, v: &V) -> (r: bool) ensures r == self@.contains(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: bool) ensures r == !old(self)@.contains(v), final(self)@ == old(self)@.insert(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: HashSet<V>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
}
impl<V> Default for HashSet<V> {
    open spec fn blank(&self) -> bool { self@ == Set::<V>::empty() }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
pub mod hash_set {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(V)]
    pub struct Iter<'a, V> { v: &'a Vec<V> }
    impl<'a, V> Iter<'a, V> {
        pub uninterp spec fn rest(&self) -> Seq<V>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a V>) ensures stepr(old(self).rest(), final(self).rest(), r) { unimplemented!() }
    }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { v: Vec<(K, V)> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapIntoIter<K, V> { v: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>) ensures *r.m == *old(self), *final(r.m) == *final(self), r.k == k { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: MapIntoIter<K, V>)
        ensures yields(self@, r.rest()) { unimplemented!() }
}
impl<'a, K, V: Default> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V)
        ensures if old(self.m)@.contains_key(self.k) { *r == old(self.m)@[self.k] } else { (*r).blank() },
            final(self.m)@ == old(self.m)@.insert(self.k, *final(r)) { unimplemented!() }
}
impl<K, V> MapIntoIter<K, V> {
    pub uninterp spec fn rest(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>) ensures step(old(self).rest(), final(self).rest(), r) { unimplemented!() }
}
impl<K, V> Default for HashMap<K, V> {
    open spec fn blank(&self) -> bool { self@ == Map::<K, V>::empty() }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
// what a map holds under a key, and what is left of it during iteration
pub trait Holds<P, V> { spec fn holds(&self, p: P, v: V) -> bool; }
impl<V> Holds<(), V> for HashSet<V> { open spec fn holds(&self, p: (), v: V) -> bool { self@.contains(v) } }
pub open spec fn under<T, P, V, M: Holds<P, V>>(m: Map<T, M>, k: T, p: P, v: V) -> bool { m.contains_key(k) && m[k].holds(p, v) }
pub open spec fn ahead<T, P, V, M: Holds<P, V>>(s: Seq<(T, M)>, k: T, p: P, v: V) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1.holds(p, v) }
pub broadcast proof fn ahead_skip<T, P, V, M: Holds<P, V>>(s: Seq<(T, M)>, k: T, p: P, v: V)
    ensures s.len() > 0 ==> (#[trigger] ahead(s, k, p, v) == (s[0].0 == k && s[0].1.holds(p, v) || ahead(s.skip(1), k, p, v)))
{
    if s.len() > 0 {
        if ahead(s, k, p, v) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1.holds(p, v);
            if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
        }
        if ahead(s.skip(1), k, p, v) {
            let i = choose|i: int| 0 <= i < s.skip(1).len() && (#[trigger] s.skip(1)[i]).0 == k && s.skip(1)[i].1.holds(p, v);
            assert(s[i + 1] == s.skip(1)[i]);
        }
    }
}
pub open spec fn yields<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool { forall|k: K, v: V| #[trigger] s.contains((k, v)) == (m.contains_key(k) && m[k] == v) }
pub proof fn ahead_all<T, P, V, M: Holds<P, V>>(m: Map<T, M>, s: Seq<(T, M)>)
    requires yields(m, s)
    ensures forall|k: T, p: P, v: V| #[trigger] ahead(s, k, p, v) == under(m, k, p, v)
{
    assert forall|k: T, p: P, v: V| #[trigger] ahead(s, k, p, v) == under(m, k, p, v) by {
        if ahead(s, k, p, v) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1.holds(p, v);
            assert(s.contains((s[i].0, s[i].1)));
        }
        if under(m, k, p, v) {
            assert(s.contains((k, m[k])));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (k, m[k]);
            assert(s[i].0 == k && s[i].1.holds(p, v));
        }
    }
}
