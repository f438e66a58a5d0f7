// Stand-ins for dependencies, with assumed contracts (every external_body below is an
// assumption, listed in the evidence; the driver tests them by executing the real ones).

// ---- core::cmp::Ord on resources: a lawful total order whose Equal means "the same value".
pub trait Ord: Sized {
    spec fn olt(self, o: Self) -> bool;
    proof fn order_laws()
        ensures
            forall|a: Self| !#[trigger] a.olt(a),
            forall|a: Self, b: Self, c: Self| #[trigger] a.olt(b) && #[trigger] b.olt(c) ==> a.olt(c),
            forall|a: Self, b: Self| #![trigger a.olt(b)] #![trigger b.olt(a)] a == b || a.olt(b) || b.olt(a);
    fn cmp(&self, other: &Self) -> (o: Ordering)
        ensures o == (if *self == *other { Ordering::Equal } else if self.olt(*other) { Ordering::Less } else { Ordering::Greater });
}
pub open spec fn ocmp<R: Ord>(a: R, b: R) -> Ordering {
    if a == b { Ordering::Equal } else if a.olt(b) { Ordering::Less } else { Ordering::Greater }
}
pub open spec fn before(a: Ordering, b: Ordering) -> bool {
    a == Ordering::Less || b == Ordering::Greater
}
// core::clone::Clone on resources: the clone is the same value.
pub trait Clone: Sized {
    fn clone(&self) -> (r: Self) ensures r == *self;
}

pub assume_specification<'a, T: Copy> [Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures o is None ==> r is None, o is Some ==> r == Some(*o->0);

// ---- slab 0.4
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Slab<T> { v: Vec<T> }
pub open spec fn cap_bound() -> int { 0x1000_0000_0000_0000 }
impl<T> Slab<T> {
    pub uninterp spec fn view(&self) -> Map<usize, T>;
    pub uninterp spec fn spec_capacity(&self) -> usize;
    // A slab never holds 2^60 entries (an entry takes at least 8 bytes).
    #[verifier::external_body]
    pub proof fn bounded(&self) ensures self@.dom().len() <= cap_bound() {}
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
        ensures r == self.spec_capacity(), r <= cap_bound(), forall|k: usize| #[trigger] self@.dom().contains(k) ==> k < r { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures self@.dom().contains(i) ==> r == Some(&self@[i]), !self@.dom().contains(i) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (k: usize)
        ensures !old(self)@.dom().contains(k), final(self)@ == old(self)@.insert(k, t) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: usize) -> (r: T)
        requires old(self)@.dom().contains(k)
        ensures r == old(self)@[k], final(self)@ == old(self)@.remove(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vacant_entry(&mut self) -> (e: VacantEntry<'_, T>)
        ensures *e.slab == *old(self), *final(e.slab) == *final(self), !old(self)@.dom().contains(e.k) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct VacantEntry<'a, T> { pub slab: &'a mut Slab<T>, pub k: usize }
impl<'a, T> VacantEntry<'a, T> {
    #[verifier::external_body]
    pub fn key(&self) -> (k: usize) ensures k == self.k { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(self, t: T) -> (r: &'a mut T)
        ensures final(self.slab)@ == old(self.slab)@.insert(self.k, *final(r)), *r == t { unimplemented!() }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Slab<T> {
    open spec fn index_req(&self, i: &usize) -> bool { self@.dom().contains(*i) }
}
impl<T> Index<usize> for Slab<T> {
    type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i] { unimplemented!() }
}
impl<T> IndexMut<usize> for Slab<T> {
    #[verifier::external_body]
    fn index_mut(&mut self, i: usize) -> (r: &mut T)
        ensures *r == old(self)@[i], final(self)@ == old(self)@.insert(i, *final(r)) { unimplemented!() }
}

// ---- raw-btree 0.2: a sequence kept in the order of the comparison the caller passes.
// `cmp(x, key)` locates `key`: the caller must pass a comparison that is monotone along the sequence.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RawBTree<T> { v: Vec<T> }
#[verifier::opaque]
pub open spec fn searchable<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(s: Seq<T>, cmp: F, key: &Q) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> call_requires(cmp, (&#[trigger] s[i], key))
    &&& forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < j < s.len()
            && #[trigger] call_ensures(cmp, (&s[i], key), a) && #[trigger] call_ensures(cmp, (&s[j], key), b) ==> before(a, b)
}
#[verifier::opaque]
pub open spec fn found<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(s: Seq<T>, cmp: F, key: &Q, x: T) -> bool {
    exists|i: int| 0 <= i < s.len() && x == #[trigger] s[i] && call_ensures(cmp, (&s[i], key), Ordering::Equal)
}
#[verifier::opaque]
pub open spec fn absent<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(s: Seq<T>, cmp: F, key: &Q) -> bool {
    forall|i: int| 0 <= i < s.len() ==> differs(cmp, &#[trigger] s[i], key)
}
pub open spec fn differs<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(cmp: F, x: &T, key: &Q) -> bool {
    exists|o: Ordering| #[trigger] call_ensures(cmp, (x, key), o) && o != Ordering::Equal
}
// b is a with item put between the elements less and those greater than it
#[verifier::opaque]
pub open spec fn added<T, F: Fn(&T, &T) -> Ordering>(a: Seq<T>, b: Seq<T>, cmp: F, item: T) -> bool {
    exists|k: int| 0 <= k <= a.len() && b == #[trigger] a.insert(k, item)
        && (forall|i: int| 0 <= i < k ==> call_ensures(cmp, (&#[trigger] a[i], &item), Ordering::Less))
        && (forall|i: int| k <= i < a.len() ==> call_ensures(cmp, (&#[trigger] a[i], &item), Ordering::Greater))
}
// b is a with item in place of x, which compares equal to it
#[verifier::opaque]
pub open spec fn swapped<T, F: Fn(&T, &T) -> Ordering>(a: Seq<T>, b: Seq<T>, cmp: F, item: T, x: T) -> bool {
    exists|k: int| 0 <= k < a.len() && b == #[trigger] a.update(k, item) && x == a[k] && call_ensures(cmp, (&a[k], &item), Ordering::Equal)
}
// b is a without x, which compares equal to key
#[verifier::opaque]
pub open spec fn taken<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(a: Seq<T>, b: Seq<T>, cmp: F, key: &Q, x: T) -> bool {
    exists|k: int| 0 <= k < a.len() && b == #[trigger] a.remove(k) && x == a[k] && call_ensures(cmp, (&a[k], key), Ordering::Equal)
}
impl<T> RawBTree<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(&self, cmp: F, key: &Q) -> (r: Option<&T>)
        requires searchable(self@, cmp, key)
        ensures r is Some ==> found(self@, cmp, key, *r->0), r is None ==> absent(self@, cmp, key)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<F: Fn(&T, &T) -> Ordering>(&mut self, cmp: F, item: T) -> (r: Option<T>)
        requires searchable(old(self)@, cmp, &item)
        ensures r is None ==> added(old(self)@, final(self)@, cmp, item), r is Some ==> swapped(old(self)@, final(self)@, cmp, item, r->0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(&mut self, cmp: F, key: &Q) -> (r: Option<T>)
        requires searchable(old(self)@, cmp, key)
        ensures r is Some ==> taken(old(self)@, final(self)@, cmp, key, r->0),
            r is None ==> final(self)@ == old(self)@ && absent(old(self)@, cmp, key)
    { unimplemented!() }
}
