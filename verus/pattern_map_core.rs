// ---- maps keyed by triple patterns (generated by tools/mkmap.py)
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
//@item pattern/triple/map.rs | GivenSubjectGivenPredicateMap
#[verifier::reject_recursive_types(V)]
//@item pattern/triple/map.rs | GivenSubjectGivenPredicateValues | ?`std::collections::hash_set::Iter` => `hash_set::Iter`
impl<V, T> Holds<GivenSubjectGivenPredicate<T>, V> for GivenSubjectGivenPredicateMap<V, T> {
    open spec fn holds(&self, p: GivenSubjectGivenPredicate<T>, v: V) -> bool { match p { GivenSubjectGivenPredicate::AnyObject => self.any@.contains(v), GivenSubjectGivenPredicate::GivenObject(id) => under(self.given@, id, (), v) } }
}
impl<V, T> Default for GivenSubjectGivenPredicateMap<V, T> {
    open spec fn blank(&self) -> bool { self.any.blank() && self.given.blank() }
//@derive pattern/triple/map.rs | GivenSubjectGivenPredicateMap | Default
}
impl<V, T> GivenSubjectGivenPredicateMap<V, T> {
    pub proof fn nothing()
        ensures forall|m: Self, p: GivenSubjectGivenPredicate<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)
    {  }
    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { n(self.any@.contains(v)) + n(under(self.given@, o, (), v)) }
}
impl<'a, V> GivenSubjectGivenPredicateValues<'a, V> {
    pub open spec fn rest(&self) -> Seq<V> { self.any.rest() + ((match self.given { Some(i) => i.rest(), None => Seq::empty() })) }
//@fn pattern/triple/map.rs | impl<'a, V> Iterator for GivenSubjectGivenPredicateValues<'a, V> | next
//@ ret r
//@ inline *
//@ subst? `Self::Item` => `&'a V`
//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)
//@end
}
impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> | get
//@ ret r
//@ inline *
//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)
//@ proof T::eq_law();
//@end
}
impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> | insert
//@ ret r
//@ spec ensures r == !old(self).holds($1, $2), forall|p: GivenSubjectGivenPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)
//@ proof assert(true);
//@end
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> | union_with
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ into 0 HashMap::into_iter
//@ loop 0 invariant forall|k: T, p: (), v: V| #![trigger under(self.given@, k, p, v)] #![trigger under(old(self).given@, k, p, v)] (under(self.given@, k, p, v) || ahead(__it0.rest(), k, p, v)) == (under(old(self).given@, k, p, v) || under($1.given@, k, p, v)),
//@|    self.any@ == old(self).any@.union($1.any@)
//@ spec ensures forall|p: GivenSubjectGivenPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || $1.holds(p, v))
//@ proof 
//@|  assert forall|s: Seq<(T, HashSet<V>)>| #[trigger] yields($1.given@, s) implies (forall|k: T, p: (), v: V| #[trigger] ahead(s, k, p, v) == under($1.given@, k, p, v)) by { ahead_all::<T, (), V, HashSet<V>>($1.given@, s); }
//@end
}
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
//@item pattern/triple/map.rs | GivenSubjectAnyPredicateMap
#[verifier::reject_recursive_types(V)]
//@item pattern/triple/map.rs | GivenSubjectAnyPredicateValues | ?`std::collections::hash_set::Iter` => `hash_set::Iter`
impl<V, T> Holds<GivenSubjectAnyPredicate<T>, V> for GivenSubjectAnyPredicateMap<V, T> {
    open spec fn holds(&self, p: GivenSubjectAnyPredicate<T>, v: V) -> bool { match p { GivenSubjectAnyPredicate::AnyObject => self.any@.contains(v), GivenSubjectAnyPredicate::SameAsPredicate => self.same_as_predicate@.contains(v), GivenSubjectAnyPredicate::GivenObject(id) => under(self.given@, id, (), v) } }
}
impl<V, T> Default for GivenSubjectAnyPredicateMap<V, T> {
    open spec fn blank(&self) -> bool { self.any.blank() && self.same_as_predicate.blank() && self.given.blank() }
//@derive pattern/triple/map.rs | GivenSubjectAnyPredicateMap | Default
}
impl<V, T> GivenSubjectAnyPredicateMap<V, T> {
    pub proof fn nothing()
        ensures forall|m: Self, p: GivenSubjectAnyPredicate<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)
    {  }
    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { n(self.any@.contains(v)) + (if p == o { n(self.same_as_predicate@.contains(v)) } else { 0 }) + n(under(self.given@, o, (), v)) }
}
impl<'a, V> GivenSubjectAnyPredicateValues<'a, V> {
    pub open spec fn rest(&self) -> Seq<V> { self.any.rest() + ((match self.same_as_predicate { Some(i) => i.rest(), None => Seq::empty() }) + ((match self.given { Some(i) => i.rest(), None => Seq::empty() }))) }
//@fn pattern/triple/map.rs | impl<'a, V> Iterator for GivenSubjectAnyPredicateValues<'a, V> | next
//@ ret r
//@ inline *
//@ subst? `Self::Item` => `&'a V`
//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)
//@end
}
impl<V, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> | get
//@ ret r
//@ inline *
//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)
//@ proof T::eq_law();
//@end
}
impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> | insert
//@ ret r
//@ spec ensures r == !old(self).holds($1, $2), forall|p: GivenSubjectAnyPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)
//@ proof assert(true);
//@end
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> | union_with
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ into 0 HashMap::into_iter
//@ loop 0 invariant forall|k: T, p: (), v: V| #![trigger under(self.given@, k, p, v)] #![trigger under(old(self).given@, k, p, v)] (under(self.given@, k, p, v) || ahead(__it0.rest(), k, p, v)) == (under(old(self).given@, k, p, v) || under($1.given@, k, p, v)),
//@|    self.any@ == old(self).any@.union($1.any@), self.same_as_predicate@ == old(self).same_as_predicate@.union($1.same_as_predicate@)
//@ spec ensures forall|p: GivenSubjectAnyPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || $1.holds(p, v))
//@ proof 
//@|  assert forall|s: Seq<(T, HashSet<V>)>| #[trigger] yields($1.given@, s) implies (forall|k: T, p: (), v: V| #[trigger] ahead(s, k, p, v) == under($1.given@, k, p, v)) by { ahead_all::<T, (), V, HashSet<V>>($1.given@, s); }
//@end
}
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
//@item pattern/triple/map.rs | AnySubjectGivenPredicateMap
#[verifier::reject_recursive_types(V)]
//@item pattern/triple/map.rs | AnySubjectGivenPredicateValues | ?`std::collections::hash_set::Iter` => `hash_set::Iter`
impl<V, T> Holds<AnySubjectGivenPredicate<T>, V> for AnySubjectGivenPredicateMap<V, T> {
    open spec fn holds(&self, p: AnySubjectGivenPredicate<T>, v: V) -> bool { match p { AnySubjectGivenPredicate::AnyObject => self.any@.contains(v), AnySubjectGivenPredicate::SameAsSubject => self.same_as_subject@.contains(v), AnySubjectGivenPredicate::GivenObject(id) => under(self.given@, id, (), v) } }
}
impl<V, T> Default for AnySubjectGivenPredicateMap<V, T> {
    open spec fn blank(&self) -> bool { self.any.blank() && self.same_as_subject.blank() && self.given.blank() }
//@derive pattern/triple/map.rs | AnySubjectGivenPredicateMap | Default
}
impl<V, T> AnySubjectGivenPredicateMap<V, T> {
    pub proof fn nothing()
        ensures forall|m: Self, p: AnySubjectGivenPredicate<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)
    {  }
    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { n(self.any@.contains(v)) + (if s == o { n(self.same_as_subject@.contains(v)) } else { 0 }) + n(under(self.given@, o, (), v)) }
}
impl<'a, V> AnySubjectGivenPredicateValues<'a, V> {
    pub open spec fn rest(&self) -> Seq<V> { self.any.rest() + ((match self.same_as_subject { Some(i) => i.rest(), None => Seq::empty() }) + ((match self.given { Some(i) => i.rest(), None => Seq::empty() }))) }
//@fn pattern/triple/map.rs | impl<'a, V> Iterator for AnySubjectGivenPredicateValues<'a, V> | next
//@ ret r
//@ inline *
//@ subst? `Self::Item` => `&'a V`
//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)
//@end
}
impl<V, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> | get
//@ ret r
//@ inline *
//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)
//@ proof T::eq_law();
//@end
}
impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> | insert
//@ ret r
//@ spec ensures r == !old(self).holds($1, $2), forall|p: AnySubjectGivenPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)
//@ proof assert(true);
//@end
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> | union_with
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ into 0 HashMap::into_iter
//@ loop 0 invariant forall|k: T, p: (), v: V| #![trigger under(self.given@, k, p, v)] #![trigger under(old(self).given@, k, p, v)] (under(self.given@, k, p, v) || ahead(__it0.rest(), k, p, v)) == (under(old(self).given@, k, p, v) || under($1.given@, k, p, v)),
//@|    self.any@ == old(self).any@.union($1.any@), self.same_as_subject@ == old(self).same_as_subject@.union($1.same_as_subject@)
//@ spec ensures forall|p: AnySubjectGivenPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || $1.holds(p, v))
//@ proof 
//@|  assert forall|s: Seq<(T, HashSet<V>)>| #[trigger] yields($1.given@, s) implies (forall|k: T, p: (), v: V| #[trigger] ahead(s, k, p, v) == under($1.given@, k, p, v)) by { ahead_all::<T, (), V, HashSet<V>>($1.given@, s); }
//@end
}
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
//@item pattern/triple/map.rs | AnySubjectAnyPredicateMap
#[verifier::reject_recursive_types(V)]
//@item pattern/triple/map.rs | AnySubjectAnyPredicateValues | ?`std::collections::hash_set::Iter` => `hash_set::Iter`
impl<V, T> Holds<AnySubjectAnyPredicate<T>, V> for AnySubjectAnyPredicateMap<V, T> {
    open spec fn holds(&self, p: AnySubjectAnyPredicate<T>, v: V) -> bool { match p { AnySubjectAnyPredicate::AnyObject => self.any@.contains(v), AnySubjectAnyPredicate::SameAsSubject => self.same_as_subject@.contains(v), AnySubjectAnyPredicate::SameAsPredicate => self.same_as_predicate@.contains(v), AnySubjectAnyPredicate::GivenObject(id) => under(self.given@, id, (), v) } }
}
impl<V, T> Default for AnySubjectAnyPredicateMap<V, T> {
    open spec fn blank(&self) -> bool { self.any.blank() && self.same_as_subject.blank() && self.same_as_predicate.blank() && self.given.blank() }
//@derive pattern/triple/map.rs | AnySubjectAnyPredicateMap | Default
}
impl<V, T> AnySubjectAnyPredicateMap<V, T> {
    pub proof fn nothing()
        ensures forall|m: Self, p: AnySubjectAnyPredicate<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)
    {  }
    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { n(self.any@.contains(v)) + (if s == o { n(self.same_as_subject@.contains(v)) } else { 0 }) + (if p == o { n(self.same_as_predicate@.contains(v)) } else { 0 }) + n(under(self.given@, o, (), v)) }
}
impl<'a, V> AnySubjectAnyPredicateValues<'a, V> {
    pub open spec fn rest(&self) -> Seq<V> { self.any.rest() + ((match self.same_as_subject { Some(i) => i.rest(), None => Seq::empty() }) + ((match self.same_as_predicate { Some(i) => i.rest(), None => Seq::empty() }) + ((match self.given { Some(i) => i.rest(), None => Seq::empty() })))) }
//@fn pattern/triple/map.rs | impl<'a, V> Iterator for AnySubjectAnyPredicateValues<'a, V> | next
//@ ret r
//@ inline *
//@ subst? `Self::Item` => `&'a V`
//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)
//@end
}
impl<V, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> | get
//@ ret r
//@ inline *
//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)
//@ proof T::eq_law();
//@end
}
impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> | insert
//@ ret r
//@ spec ensures r == !old(self).holds($1, $2), forall|p: AnySubjectAnyPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)
//@ proof assert(true);
//@end
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> | union_with
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ into 0 HashMap::into_iter
//@ loop 0 invariant forall|k: T, p: (), v: V| #![trigger under(self.given@, k, p, v)] #![trigger under(old(self).given@, k, p, v)] (under(self.given@, k, p, v) || ahead(__it0.rest(), k, p, v)) == (under(old(self).given@, k, p, v) || under($1.given@, k, p, v)),
//@|    self.any@ == old(self).any@.union($1.any@), self.same_as_subject@ == old(self).same_as_subject@.union($1.same_as_subject@), self.same_as_predicate@ == old(self).same_as_predicate@.union($1.same_as_predicate@)
//@ spec ensures forall|p: AnySubjectAnyPredicate<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || $1.holds(p, v))
//@ proof 
//@|  assert forall|s: Seq<(T, HashSet<V>)>| #[trigger] yields($1.given@, s) implies (forall|k: T, p: (), v: V| #[trigger] ahead(s, k, p, v) == under($1.given@, k, p, v)) by { ahead_all::<T, (), V, HashSet<V>>($1.given@, s); }
//@end
}
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
//@item pattern/triple/map.rs | GivenSubjectMap
#[verifier::reject_recursive_types(V)]
//@item pattern/triple/map.rs | GivenSubjectValues | ?`std::collections::hash_set::Iter` => `hash_set::Iter`
impl<V, T> Holds<GivenSubject<T>, V> for GivenSubjectMap<V, T> {
    open spec fn holds(&self, p: GivenSubject<T>, v: V) -> bool { match p { GivenSubject::AnyPredicate(q) => self.any.holds(q, v), GivenSubject::GivenPredicate(id, q) => under(self.given@, id, q, v) } }
}
impl<V, T> Default for GivenSubjectMap<V, T> {
    open spec fn blank(&self) -> bool { self.any.blank() && self.given.blank() }
//@derive pattern/triple/map.rs | GivenSubjectMap | Default
}
impl<V, T> GivenSubjectMap<V, T> {
    pub proof fn nothing()
        ensures forall|m: Self, p: GivenSubject<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)
    { GivenSubjectAnyPredicateMap::<V, T>::nothing(); GivenSubjectGivenPredicateMap::<V, T>::nothing(); }
    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { self.any.total(s, p, o, v) + (if self.given@.contains_key(p) { self.given@[p].total(s, p, o, v) } else { 0 }) }
}
impl<'a, V> GivenSubjectValues<'a, V> {
    pub open spec fn rest(&self) -> Seq<V> { self.any.rest() + ((match self.given { Some(i) => i.rest(), None => Seq::empty() })) }
//@fn pattern/triple/map.rs | impl<'a, V> Iterator for GivenSubjectValues<'a, V> | next
//@ ret r
//@ inline *
//@ subst? `Self::Item` => `&'a V`
//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)
//@end
}
impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
//@fn pattern/triple/map.rs | impl<V, T: Eq + Hash> GivenSubjectMap<V, T> | get
//@ ret r
//@ inline *
//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)
//@ proof T::eq_law();
//@end
}
impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> | insert
//@ ret r
//@ spec ensures r == !old(self).holds($1, $2), forall|p: GivenSubject<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)
//@ proof GivenSubjectGivenPredicateMap::<V, T>::nothing(); 
//@end
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> | union_with
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ into 0 HashMap::into_iter
//@ loop 0 invariant forall|k: T, p: GivenSubjectGivenPredicate<T>, v: V| #![trigger under(self.given@, k, p, v)] #![trigger under(old(self).given@, k, p, v)] (under(self.given@, k, p, v) || ahead(__it0.rest(), k, p, v)) == (under(old(self).given@, k, p, v) || under($1.given@, k, p, v)),
//@|    forall|p: GivenSubjectAnyPredicate<T>, v: V| #[trigger] self.any.holds(p, v) == (old(self).any.holds(p, v) || $1.any.holds(p, v))
//@ spec ensures forall|p: GivenSubject<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || $1.holds(p, v))
//@ proof GivenSubjectGivenPredicateMap::<V, T>::nothing(); 
//@|  assert forall|s: Seq<(T, GivenSubjectGivenPredicateMap<V, T>)>| #[trigger] yields($1.given@, s) implies (forall|k: T, p: GivenSubjectGivenPredicate<T>, v: V| #[trigger] ahead(s, k, p, v) == under($1.given@, k, p, v)) by { ahead_all::<T, GivenSubjectGivenPredicate<T>, V, GivenSubjectGivenPredicateMap<V, T>>($1.given@, s); }
//@end
}
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
//@item pattern/triple/map.rs | AnySubjectMap
#[verifier::reject_recursive_types(V)]
//@item pattern/triple/map.rs | AnySubjectValues | ?`std::collections::hash_set::Iter` => `hash_set::Iter`
impl<V, T> Holds<AnySubject<T>, V> for AnySubjectMap<V, T> {
    open spec fn holds(&self, p: AnySubject<T>, v: V) -> bool { match p { AnySubject::AnyPredicate(q) => self.any.holds(q, v), AnySubject::SameAsSubject(q) => self.same_as_subject.holds(q, v), AnySubject::GivenPredicate(id, q) => under(self.given@, id, q, v) } }
}
impl<V, T> Default for AnySubjectMap<V, T> {
    open spec fn blank(&self) -> bool { self.any.blank() && self.same_as_subject.blank() && self.given.blank() }
//@derive pattern/triple/map.rs | AnySubjectMap | Default
}
impl<V, T> AnySubjectMap<V, T> {
    pub proof fn nothing()
        ensures forall|m: Self, p: AnySubject<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)
    { AnySubjectAnyPredicateMap::<V, T>::nothing(); AnySubjectGivenPredicateMap::<V, T>::nothing(); }
    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { self.any.total(s, p, o, v) + (if s == p { self.same_as_subject.total(s, p, o, v) } else { 0 }) + (if self.given@.contains_key(p) { self.given@[p].total(s, p, o, v) } else { 0 }) }
}
impl<'a, V> AnySubjectValues<'a, V> {
    pub open spec fn rest(&self) -> Seq<V> { self.any.rest() + ((match self.same_as_subject { Some(i) => i.rest(), None => Seq::empty() }) + ((match self.given { Some(i) => i.rest(), None => Seq::empty() }))) }
//@fn pattern/triple/map.rs | impl<'a, V> Iterator for AnySubjectValues<'a, V> | next
//@ ret r
//@ inline *
//@ subst? `Self::Item` => `&'a V`
//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)
//@end
}
impl<V, T: Eq + Hash> AnySubjectMap<V, T> {
//@fn pattern/triple/map.rs | impl<V, T: Eq + Hash> AnySubjectMap<V, T> | get
//@ ret r
//@ inline *
//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)
//@ proof T::eq_law();
//@end
}
impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> | insert
//@ ret r
//@ spec ensures r == !old(self).holds($1, $2), forall|p: AnySubject<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)
//@ proof AnySubjectGivenPredicateMap::<V, T>::nothing(); 
//@end
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> | union_with
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ into 0 HashMap::into_iter
//@ loop 0 invariant forall|k: T, p: AnySubjectGivenPredicate<T>, v: V| #![trigger under(self.given@, k, p, v)] #![trigger under(old(self).given@, k, p, v)] (under(self.given@, k, p, v) || ahead(__it0.rest(), k, p, v)) == (under(old(self).given@, k, p, v) || under($1.given@, k, p, v)),
//@|    forall|p: AnySubjectAnyPredicate<T>, v: V| #[trigger] self.any.holds(p, v) == (old(self).any.holds(p, v) || $1.any.holds(p, v)), forall|p: AnySubjectGivenPredicate<T>, v: V| #[trigger] self.same_as_subject.holds(p, v) == (old(self).same_as_subject.holds(p, v) || $1.same_as_subject.holds(p, v))
//@ spec ensures forall|p: AnySubject<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || $1.holds(p, v))
//@ proof AnySubjectGivenPredicateMap::<V, T>::nothing(); 
//@|  assert forall|s: Seq<(T, AnySubjectGivenPredicateMap<V, T>)>| #[trigger] yields($1.given@, s) implies (forall|k: T, p: AnySubjectGivenPredicate<T>, v: V| #[trigger] ahead(s, k, p, v) == under($1.given@, k, p, v)) by { ahead_all::<T, AnySubjectGivenPredicate<T>, V, AnySubjectGivenPredicateMap<V, T>>($1.given@, s); }
//@end
}
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
//@item pattern/triple/map.rs | TriplePatternMap
#[verifier::reject_recursive_types(V)]
//@item pattern/triple/map.rs | Values | ?`std::collections::hash_set::Iter` => `hash_set::Iter`
impl<V, T> Holds<CanonicalTriplePattern<T>, V> for TriplePatternMap<V, T> {
    open spec fn holds(&self, p: CanonicalTriplePattern<T>, v: V) -> bool { match p { CanonicalTriplePattern::AnySubject(q) => self.any.holds(q, v), CanonicalTriplePattern::GivenSubject(id, q) => under(self.given@, id, q, v) } }
}
impl<V, T> Default for TriplePatternMap<V, T> {
    open spec fn blank(&self) -> bool { self.any.blank() && self.given.blank() }
//@derive pattern/triple/map.rs | TriplePatternMap | Default
}
impl<V, T> TriplePatternMap<V, T> {
    pub proof fn nothing()
        ensures forall|m: Self, p: CanonicalTriplePattern<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)
    { AnySubjectMap::<V, T>::nothing(); GivenSubjectMap::<V, T>::nothing(); }
    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { self.any.total(s, p, o, v) + (if self.given@.contains_key(s) { self.given@[s].total(s, p, o, v) } else { 0 }) }
}
impl<'a, V> Values<'a, V> {
    pub open spec fn rest(&self) -> Seq<V> { self.any.rest() + ((match self.given { Some(i) => i.rest(), None => Seq::empty() })) }
//@fn pattern/triple/map.rs | impl<'a, V> Iterator for Values<'a, V> | next
//@ ret r
//@ inline *
//@ subst? `Self::Item` => `&'a V`
//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)
//@end
}
impl<V, T: Eq + Hash> TriplePatternMap<V, T> {
//@fn pattern/triple/map.rs | impl<V, T: Eq + Hash> TriplePatternMap<V, T> | get
//@ ret r
//@ inline *
//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)
//@ proof T::eq_law();
//@end
}
impl<V: Eq + Hash, T: Eq + Hash> TriplePatternMap<V, T> {
//@fn pattern/triple/map.rs | impl<V: Eq + Hash, T: Eq + Hash> TriplePatternMap<V, T> | insert
//@ ret r
//@ spec ensures r == !old(self).holds($1, $2), forall|p: CanonicalTriplePattern<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)
//@ proof GivenSubjectMap::<V, T>::nothing(); 
//@end
}
