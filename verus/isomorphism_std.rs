// ---- stand-ins for core and alloc, with assumed contracts (listed in the evidence)
pub trait Ord: Sized {}
// PartialEq on resources (through Ord): their Eq is the equality of the values they stand for
#[verifier::external_body]
pub fn same<R>(a: &R, b: &R) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub open spec fn step<A>(before: Seq<A>, after: Seq<A>, r: Option<A>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r == Some(before[0]) && after == before.skip(1) }
}
// a run of fold: each accumulator is a result of the closure on the one before
pub open spec fn folds<A, B, F: Fn(B, A) -> B>(f: F, acc: B, s: Seq<A>, r: B) -> bool
    decreases s.len()
{ if s.len() == 0 { r == acc } else { exists|m: B| #[trigger] call_ensures(f, (acc, s[0]), m) && folds(f, m, s.skip(1), r) } }
pub open spec fn fmapped<A, B, F: Fn(A) -> B>(f: F, s: Seq<A>, r: Seq<B>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (s[i],), #[trigger] r[i]) }
pub open spec fn filtered<A, F: Fn(&A) -> bool>(f: F, s: Seq<A>, r: Seq<A>) -> bool {
    &&& s.no_duplicates() ==> r.no_duplicates()
    &&& forall|x: A| #[trigger] r.contains(x) ==> s.contains(x) && call_ensures(f, (&x,), true)
    &&& forall|x: A| #[trigger] s.contains(x) && !r.contains(x) ==> call_ensures(f, (&x,), false)
}
pub trait Iterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>) ensures step(old(self).rest(), final(self).rest(), r);
}
pub trait Adapters: Iterator {
    #[verifier::external_body]
    fn map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: AnyIter<B>) ensures fmapped(f, self.rest(), r.rest()) { unimplemented!() }
    #[verifier::external_body]
    fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: AnyIter<Self::Item>) ensures filtered(f, self.rest(), r.rest()) { unimplemented!() }
    #[verifier::external_body]
    fn fold<B, F: Fn(B, Self::Item) -> B>(self, init: B, f: F) -> (r: B) ensures folds(f, init, self.rest(), r) { unimplemented!() }
    #[verifier::external_body]
    fn collect(self) -> (r: Vec<Self::Item>) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    fn rev(self) -> (r: AnyIter<Self::Item>) ensures r.rest().len() == self.rest().len(), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] == self.rest()[self.rest().len() - 1 - i] { unimplemented!() }
    #[verifier::external_body]
    fn all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
        ensures r ==> forall|i: int| 0 <= i < old(self).rest().len() ==> call_ensures(f, (#[trigger] old(self).rest()[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self).rest().len() && #[trigger] call_ensures(f, (old(self).rest()[i],), false) { unimplemented!() }
    #[verifier::external_body]
    fn rposition<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        ensures r is Some ==> r->0 < old(self).rest().len() && call_ensures(f, (old(self).rest()[r->0 as int],), true),
            r is None ==> forall|i: int| 0 <= i < old(self).rest().len() ==> call_ensures(f, (#[trigger] old(self).rest()[i],), false) { unimplemented!() }
}
impl<I: Iterator> Adapters for I {}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(&self, s: Seq<Self::Item>) -> bool;
    fn into_iter(self) -> (r: Self::IntoIter) ensures self.items(r.rest());
}
impl<I: Iterator> IntoIterator for I {
    type Item = I::Item; type IntoIter = I;
    open spec fn items(&self, s: Seq<I::Item>) -> bool { s == self.rest() }
    fn into_iter(self) -> (r: I) { self }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AnyIter<T>(std::marker::PhantomData<T>);
impl<T> Iterator for AnyIter<T> {
    type Item = T;
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Vec<T>(std::vec::Vec<T>);
impl<T> View for Vec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn refs<T>(v: Seq<T>, s: Seq<&T>) -> bool { s.len() == v.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < v.len() ==> *s[i] == v[i] }
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: T) requires i < old(self)@.len() ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn at_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self)@.len() ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: AnyIter<&T>) ensures refs(self@, r.rest()) { unimplemented!() }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T; type IntoIter = AnyIter<T>;
    open spec fn items(&self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn into_iter(self) -> (r: AnyIter<T>) { unimplemented!() }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T; type IntoIter = AnyIter<&'a T>;
    open spec fn items(&self, s: Seq<&'a T>) -> bool { refs(self@, s) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: AnyIter<&'a T>) { unimplemented!() }
}
// ---- BTreeMap and BTreeSet: a map and a set, up to the Eq of their keys
pub trait Default: Sized {
    spec fn is_default(&self) -> bool;
    fn default() -> (r: Self) ensures r.is_default();
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V>(std::marker::PhantomData<(K, V)>);
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'m, K, V> { pub map: &'m mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'m, K, V> { pub map: &'m mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'m, K, V> { Vacant(VacantEntry<'m, K, V>), Occupied(OccupiedEntry<'m, K, V>) }
// what Borrow makes of a key: a key is looked up by itself or, when it is a reference, by what it points to
pub trait Key<Q>: Sized { spec fn is(self, q: &Q) -> bool; }
impl<K> Key<K> for K { open spec fn is(self, q: &K) -> bool { self == *q } }
impl<'a, R> Key<R> for &'a R { open spec fn is(self, q: &R) -> bool { *self == *q } }
// the entries, each key once
pub open spec fn entries<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn entry_refs<K, V>(m: Map<K, V>, s: Seq<(&K, &V)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q>(&self, q: &Q) -> (r: Option<&V>) where K: Key<Q>
        ensures match r { Some(v) => exists|k: K| #[trigger] self@.contains_key(k) && k.is(q) && *v == self@[k], None => forall|k: K| #[trigger] self@.contains_key(k) ==> !k.is(q) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q>(&self, q: &Q) -> (r: bool) where K: Key<Q>
        ensures r == exists|k: K| #[trigger] self@.contains_key(k) && k.is(q) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Iter<'_, K, V>) ensures entry_refs(self@, r.rest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'m>(&'m mut self, k: K) -> (r: Entry<'m, K, V>) ensures match r {
        Entry::Vacant(e) => !old(self)@.contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == k,
        Entry::Occupied(e) => old(self)@.contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == k } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Iter<'a, K, V>(std::marker::PhantomData<&'a (K, V)>);
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    uninterp spec fn rest(&self) -> Seq<(&'a K, &'a V)>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(&'a K, &'a V)>) { unimplemented!() }
}
impl<'a, K, V> Iter<'a, K, V> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
impl<K, V> IntoIterator for BTreeMap<K, V> {
    type Item = (K, V); type IntoIter = AnyIter<(K, V)>;
    open spec fn items(&self, s: Seq<(K, V)>) -> bool { entries(self@, s) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: AnyIter<(K, V)>) { unimplemented!() }
}
impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V); type IntoIter = AnyIter<(&'a K, &'a V)>;
    open spec fn items(&self, s: Seq<(&'a K, &'a V)>) -> bool { entry_refs(self@, s) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: AnyIter<(&'a K, &'a V)>) { unimplemented!() }
}
impl<'m, K, V> VacantEntry<'m, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'m mut V) ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r)) { unimplemented!() }
}
impl<'m, K, V> OccupiedEntry<'m, K, V> {
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V) requires old(self).map@.contains_key(old(self).key) ensures *r == old(self).map@[old(self).key], final(self).map@ == old(self).map@.insert(old(self).key, *final(r)), final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map) { unimplemented!() }
}
impl<'m, K, V: Default> Entry<'m, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'m mut V)
        ensures self is Vacant ==> r.is_default() && final(self->Vacant_0.map)@ == old(self->Vacant_0.map)@.insert(self->Vacant_0.key, *final(r)),
            self is Occupied ==> *r == old(self->Occupied_0.map)@[self->Occupied_0.key] && final(self->Occupied_0.map)@ == old(self->Occupied_0.map)@.insert(self->Occupied_0.key, *final(r)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T>(std::marker::PhantomData<T>);
impl<T> View for BTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> BTreeSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|t: T| !#[trigger] self@.contains(t)) { unimplemented!() }
}
pub open spec fn members<T>(m: Set<T>, s: Seq<&T>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains(*#[trigger] s[i])) && (forall|t: T| #[trigger] m.contains(t) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == t)
}
impl<'a, T> IntoIterator for &'a BTreeSet<T> {
    type Item = &'a T; type IntoIter = AnyIter<&'a T>;
    open spec fn items(&self, s: Seq<&'a T>) -> bool { members(self@, s) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: AnyIter<&'a T>) { unimplemented!() }
}
// c + n, without overflow: a count of positions of statements in memory
#[verifier::external_body]
pub fn plus(c: usize, n: usize) -> (r: usize) ensures r == c + n { unimplemented!() }
