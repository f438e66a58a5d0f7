// (generated by tools/mkstatements.py)
impl<S, P, O> Triple<S, P, O> {
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | new
//@  ret r
//@  named
//@  spec ensures r == Triple($0, $1, $2)
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | subject
//@  ret r
//@  named
//@  spec ensures *r == self.0
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | subject_mut
//@  ret r
//@  named
//@  spec ensures *r == old(self).0, *final(self) == Triple(*final(r), old(self).1, old(self).2)
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | into_subject
//@  ret r
//@  named
//@  spec ensures r == self.0
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | predicate
//@  ret r
//@  named
//@  spec ensures *r == self.1
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | predicate_mut
//@  ret r
//@  named
//@  spec ensures *r == old(self).1, *final(self) == Triple(old(self).0, *final(r), old(self).2)
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | into_predicate
//@  ret r
//@  named
//@  spec ensures r == self.1
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | object
//@  ret r
//@  named
//@  spec ensures *r == self.2
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | object_mut
//@  ret r
//@  named
//@  spec ensures *r == old(self).2, *final(self) == Triple(old(self).0, old(self).1, *final(r))
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | into_object
//@  ret r
//@  named
//@  spec ensures r == self.2
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | into_quad
//@  ret r
//@  named
//@  spec ensures r == Quad(self.0, self.1, self.2, $1)
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | into_parts
//@  ret r
//@  named
//@  spec ensures r == (self.0, self.1, self.2)
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | map_subject
//@  ret r
//@  named
//@  spec requires $1.requires((self.0,)) ensures $1.ensures((self.0,), r.0), r.1 == self.1, r.2 == self.2
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | map_predicate
//@  ret r
//@  named
//@  spec requires $1.requires((self.1,)) ensures $1.ensures((self.1,), r.1), r.0 == self.0, r.2 == self.2
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | map_object
//@  ret r
//@  named
//@  spec requires $1.requires((self.2,)) ensures $1.ensures((self.2,), r.2), r.0 == self.0, r.1 == self.1
//@end
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | as_ref
//@  ret r
//@  named
//@  spec ensures *r.0 == self.0, *r.1 == self.1, *r.2 == self.2
//@end
}
impl<S, P, O> Triple<&S, &P, &O> {
//@fn triple.rs | impl<S, P, O> Triple<&S, &P, &O> | cloned
//@  ret r
//@  named
//@  spec ensures cloned::<S>(*self.0, r.0), cloned::<P>(*self.1, r.1), cloned::<O>(*self.2, r.2)
//@end
//@fn triple.rs | impl<S, P, O> Triple<&S, &P, &O> | into_cloned
//@  ret r
//@  named
//@  spec ensures cloned::<S>(*self.0, r.0), cloned::<P>(*self.1, r.1), cloned::<O>(*self.2, r.2)
//@end
//@fn triple.rs | impl<S, P, O> Triple<&S, &P, &O> | copied
//@  ret r
//@  named
//@  spec ensures r.0 == *self.0, r.1 == *self.1, r.2 == *self.2
//@end
//@fn triple.rs | impl<S, P, O> Triple<&S, &P, &O> | into_copied
//@  ret r
//@  named
//@  spec ensures r.0 == *self.0, r.1 == *self.1, r.2 == *self.2
//@end
}
impl<T> Triple<T, T, T> {
//@fn triple.rs | impl<T> Triple<T, T, T> | map
//@  ret r
//@  named
//@  spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures $1.ensures((self.0,), r.0), $1.ensures((self.1,), r.1), $1.ensures((self.2,), r.2)
//@end
}
impl<S1: PartialEq<S2>, P1: PartialEq<P2>, O1: PartialEq<O2>, S2, P2, O2> PartialEqSpecImpl<Triple<S2, P2, O2>> for Triple<S1, P1, O1> { open spec fn obeys_eq_spec() -> bool { <S1 as PartialEqSpec<S2>>::obeys_eq_spec() && <P1 as PartialEqSpec<P2>>::obeys_eq_spec() && <O1 as PartialEqSpec<O2>>::obeys_eq_spec() } open spec fn eq_spec(&self, o: &Triple<S2, P2, O2>) -> bool { self.0.eq_spec(&o.0) && self.1.eq_spec(&o.1) && self.2.eq_spec(&o.2) } }
impl<S1: PartialEq<S2>, P1: PartialEq<P2>, O1: PartialEq<O2>, S2, P2, O2> PartialEq<Triple<S2, P2, O2>> for Triple<S1, P1, O1> {
//@fn triple.rs | impl<S1: PartialEq<S2>, P1: PartialEq<P2>, O1: PartialEq<O2>, S2, P2, O2> PartialEq<Triple<S2, P2, O2>> for Triple<S1, P1, O1> | eq
//@  bare
//@  ret r
//@end
}
impl<S1: PartialOrd<S2>, P1: PartialOrd<P2>, O1: PartialOrd<O2>, S2, P2, O2> PartialOrdSpecImpl<Triple<S2, P2, O2>> for Triple<S1, P1, O1> { open spec fn obeys_partial_cmp_spec() -> bool { <S1 as PartialOrdSpec<S2>>::obeys_partial_cmp_spec() && <P1 as PartialOrdSpec<P2>>::obeys_partial_cmp_spec() && <O1 as PartialOrdSpec<O2>>::obeys_partial_cmp_spec() } open spec fn partial_cmp_spec(&self, o: &Triple<S2, P2, O2>) -> Option<Ordering> { othen(self.0.partial_cmp_spec(&o.0), othen(self.1.partial_cmp_spec(&o.1), self.2.partial_cmp_spec(&o.2))) } }
impl<S1: PartialOrd<S2>, P1: PartialOrd<P2>, O1: PartialOrd<O2>, S2, P2, O2> PartialOrd<Triple<S2, P2, O2>> for Triple<S1, P1, O1> {
//@fn triple.rs | impl<S1: PartialOrd<S2>, P1: PartialOrd<P2>, O1: PartialOrd<O2>, S2, P2, O2> PartialOrd<Triple<S2, P2, O2>> for Triple<S1, P1, O1> | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<S: Eq, P: Eq, O: Eq> Eq for Triple<S, P, O> { }
impl<S: Ord, P: Ord, O: Ord> OrdSpecImpl for Triple<S, P, O> { open spec fn obeys_cmp_spec() -> bool { <S as OrdSpec>::obeys_cmp_spec() && <P as OrdSpec>::obeys_cmp_spec() && <O as OrdSpec>::obeys_cmp_spec() } open spec fn cmp_spec(&self, o: &Self) -> Ordering { then(self.0.cmp_spec(&o.0), then(self.1.cmp_spec(&o.1), self.2.cmp_spec(&o.2))) } }
impl<S: Ord, P: Ord, O: Ord> Ord for Triple<S, P, O> {
//@derive triple.rs | Triple | Ord
}
impl<S: Hash, P: Hash, O: Hash> Hash for Triple<S, P, O> { open spec fn fed(&self) -> Seq<Fed> { self.0.fed() + self.1.fed() + self.2.fed() }
//@derive triple.rs | Triple | Hash
}
impl<S, P, O, G> Quad<S, P, O, G> {
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | new
//@  ret r
//@  named
//@  spec ensures r == Quad($0, $1, $2, $3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | subject
//@  ret r
//@  named
//@  spec ensures *r == self.0
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | subject_mut
//@  ret r
//@  named
//@  spec ensures *r == old(self).0, *final(self) == Quad(*final(r), old(self).1, old(self).2, old(self).3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_subject
//@  ret r
//@  named
//@  spec ensures r == self.0
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | predicate
//@  ret r
//@  named
//@  spec ensures *r == self.1
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | predicate_mut
//@  ret r
//@  named
//@  spec ensures *r == old(self).1, *final(self) == Quad(old(self).0, *final(r), old(self).2, old(self).3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_predicate
//@  ret r
//@  named
//@  spec ensures r == self.1
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | object
//@  ret r
//@  named
//@  spec ensures *r == self.2
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | object_mut
//@  ret r
//@  named
//@  spec ensures *r == old(self).2, *final(self) == Quad(old(self).0, old(self).1, *final(r), old(self).3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_object
//@  ret r
//@  named
//@  spec ensures r == self.2
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | graph
//@  ret r
//@  named
//@  spec ensures r == as_ref_opt(&self.3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | graph_mut
//@  ret r
//@  named
//@  spec ensures match r { Some(x) => old(self).3 == Some(*x) && *final(self) == Quad(old(self).0, old(self).1, old(self).2, Some(*final(x))), None => old(self).3 is None && *final(self) == *old(self) }
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_graph
//@  ret r
//@  named
//@  spec ensures r == self.3
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_triple
//@  ret r
//@  named
//@  spec ensures r == (Triple(self.0, self.1, self.2), self.3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | with_graph
//@  ret r
//@  named
//@  spec ensures r == Quad(self.0, self.1, self.2, $1)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | map_all
//@  ret r
//@  named
//@  spec requires $1.requires((self.0,)), $2.requires((self.1,)), $3.requires((self.2,)), $4.requires((self.3,)) ensures $1.ensures((self.0,), r.0), $2.ensures((self.1,), r.1), $3.ensures((self.2,), r.2), $4.ensures((self.3,), r.3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | borrow_components
//@  ret r
//@  named
//@  spec ensures *r.0 == self.0, *r.1 == self.1, *r.2 == self.2, r.3 == as_ref_opt(&self.3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_parts
//@  ret r
//@  named
//@  spec ensures r == (self.0, self.1, self.2, self.3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | map_subject
//@  ret r
//@  named
//@  spec requires $1.requires((self.0,)) ensures $1.ensures((self.0,), r.0), r.1 == self.1, r.2 == self.2, r.3 == self.3
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | map_predicate
//@  ret r
//@  named
//@  spec requires $1.requires((self.1,)) ensures $1.ensures((self.1,), r.1), r.0 == self.0, r.2 == self.2, r.3 == self.3
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | map_object
//@  ret r
//@  named
//@  spec requires $1.requires((self.2,)) ensures $1.ensures((self.2,), r.2), r.0 == self.0, r.1 == self.1, r.3 == self.3
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | map_graph
//@  ret r
//@  named
//@  spec requires $1.requires((self.3,)) ensures $1.ensures((self.3,), r.3), r.0 == self.0, r.1 == self.1, r.2 == self.2
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | as_ref
//@  ret r
//@  named
//@  spec ensures *r.0 == self.0, *r.1 == self.1, *r.2 == self.2, r.3 == as_ref_opt(&self.3)
//@end
}
impl<S, P, O, G> Quad<&S, &P, &O, &G> {
//@fn quad.rs | impl<S, P, O, G> Quad<&S, &P, &O, &G> | cloned
//@  ret r
//@  named
//@  spec ensures cloned::<S>(*self.0, r.0), cloned::<P>(*self.1, r.1), cloned::<O>(*self.2, r.2), match self.3 { Some(x) => r.3 is Some && cloned::<G>(*x, r.3->0), None => r.3 is None }
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<&S, &P, &O, &G> | into_cloned
//@  ret r
//@  named
//@  spec ensures cloned::<S>(*self.0, r.0), cloned::<P>(*self.1, r.1), cloned::<O>(*self.2, r.2), match self.3 { Some(x) => r.3 is Some && cloned::<G>(*x, r.3->0), None => r.3 is None }
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<&S, &P, &O, &G> | copied
//@  ret r
//@  named
//@  spec ensures r.0 == *self.0, r.1 == *self.1, r.2 == *self.2, r.3 == copy_opt(self.3)
//@end
//@fn quad.rs | impl<S, P, O, G> Quad<&S, &P, &O, &G> | into_copied
//@  ret r
//@  named
//@  spec ensures r.0 == *self.0, r.1 == *self.1, r.2 == *self.2, r.3 == copy_opt(self.3)
//@end
}
impl<T> Quad<T, T, T, T> {
//@fn quad.rs | impl<T> Quad<T, T, T, T> | map
//@  ret r
//@  named
//@  spec requires forall|x: T| #[trigger] $1.requires((x,)) ensures $1.ensures((self.0,), r.0), $1.ensures((self.1,), r.1), $1.ensures((self.2,), r.2), match self.3 { Some(x) => r.3 is Some && $1.ensures((x,), r.3->0), None => r.3 is None }
//@end
}
impl<S1: PartialEq<S2>, P1: PartialEq<P2>, O1: PartialEq<O2>, G1: PartialEq<G2>, S2, P2, O2, G2> PartialEqSpecImpl<Quad<S2, P2, O2, G2>> for Quad<S1, P1, O1, G1> { open spec fn obeys_eq_spec() -> bool { <S1 as PartialEqSpec<S2>>::obeys_eq_spec() && <P1 as PartialEqSpec<P2>>::obeys_eq_spec() && <O1 as PartialEqSpec<O2>>::obeys_eq_spec() && <G1 as PartialEqSpec<G2>>::obeys_eq_spec() } open spec fn eq_spec(&self, o: &Quad<S2, P2, O2, G2>) -> bool { self.0.eq_spec(&o.0) && self.1.eq_spec(&o.1) && self.2.eq_spec(&o.2) && opt_eq(self.3, o.3) } }
impl<S1: PartialEq<S2>, P1: PartialEq<P2>, O1: PartialEq<O2>, G1: PartialEq<G2>, S2, P2, O2, G2> PartialEq<Quad<S2, P2, O2, G2>> for Quad<S1, P1, O1, G1> {
//@fn quad.rs | impl<S1: PartialEq<S2>, P1: PartialEq<P2>, O1: PartialEq<O2>, G1: PartialEq<G2>, S2, P2, O2, G2,> PartialEq<Quad<S2, P2, O2, G2>> for Quad<S1, P1, O1, G1> | eq
//@  bare
//@  ret r
//@end
}
impl<S1: PartialOrd<S2>, P1: PartialOrd<P2>, O1: PartialOrd<O2>, G1: PartialOrd<G2>, S2, P2, O2, G2> PartialOrdSpecImpl<Quad<S2, P2, O2, G2>> for Quad<S1, P1, O1, G1> { open spec fn obeys_partial_cmp_spec() -> bool { <S1 as PartialOrdSpec<S2>>::obeys_partial_cmp_spec() && <P1 as PartialOrdSpec<P2>>::obeys_partial_cmp_spec() && <O1 as PartialOrdSpec<O2>>::obeys_partial_cmp_spec() && <G1 as PartialOrdSpec<G2>>::obeys_partial_cmp_spec() } open spec fn partial_cmp_spec(&self, o: &Quad<S2, P2, O2, G2>) -> Option<Ordering> { othen(self.0.partial_cmp_spec(&o.0), othen(self.1.partial_cmp_spec(&o.1), othen(self.2.partial_cmp_spec(&o.2), opt_partial_cmp(self.3, o.3)))) } }
impl<S1: PartialOrd<S2>, P1: PartialOrd<P2>, O1: PartialOrd<O2>, G1: PartialOrd<G2>, S2, P2, O2, G2> PartialOrd<Quad<S2, P2, O2, G2>> for Quad<S1, P1, O1, G1> {
//@fn quad.rs | impl<S1: PartialOrd<S2>, P1: PartialOrd<P2>, O1: PartialOrd<O2>, G1: PartialOrd<G2>, S2, P2, O2, G2,> PartialOrd<Quad<S2, P2, O2, G2>> for Quad<S1, P1, O1, G1> | partial_cmp
//@  bare
//@  ret r
//@end
}
impl<S: Eq, P: Eq, O: Eq, G: Eq> Eq for Quad<S, P, O, G> { }
impl<S: Ord, P: Ord, O: Ord, G: Ord> OrdSpecImpl for Quad<S, P, O, G> { open spec fn obeys_cmp_spec() -> bool { <S as OrdSpec>::obeys_cmp_spec() && <P as OrdSpec>::obeys_cmp_spec() && <O as OrdSpec>::obeys_cmp_spec() && <G as OrdSpec>::obeys_cmp_spec() } open spec fn cmp_spec(&self, o: &Self) -> Ordering { then(self.0.cmp_spec(&o.0), then(self.1.cmp_spec(&o.1), then(self.2.cmp_spec(&o.2), opt_cmp(self.3, o.3)))) } }
impl<S: Ord, P: Ord, O: Ord, G: Ord> Ord for Quad<S, P, O, G> {
//@derive quad.rs | Quad | Ord
}
impl<S: Hash, P: Hash, O: Hash, G: Hash> Hash for Quad<S, P, O, G> { open spec fn fed(&self) -> Seq<Fed> { self.0.fed() + self.1.fed() + self.2.fed() + self.3.fed() }
//@derive quad.rs | Quad | Hash
}

impl Triple<Id, IriBuf, LocalTerm> {
//@fn triple.rs | impl LexicalTriple | as_lexical_triple_ref
//@  ret r
//@  subst `LexicalTripleRef` => `Triple<IdRef<'_>, &Iri, LocalTermRef<'_>>`
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v()
//@end
}
impl<'a> Triple<IdRef<'a>, &'a Iri, LocalTermRef<'a>> {
//@fn triple.rs | impl LexicalTripleRef<'_> | into_owned
//@  ret r
//@  subst `LexicalTriple` => `Triple<Id, IriBuf, LocalTerm>`
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v()
//@end
}
impl Quad<Id, IriBuf, LocalTerm, Id> {
//@fn quad.rs | impl RdfQuad | as_lexical_quad_ref
//@  ret r
//@  subst `RdfQuadRef` => `Quad<IdRef<'_>, &Iri, LocalTermRef<'_>, IdRef<'_>>`
//@  eta
//@  closure 0 (&'_ Id) -> o: IdRef<'_> requires true ensures o.v() == c0.v()
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v(), match self.3 { Some(g) => r.3 is Some && (r.3->0).v() == g.v(), None => r.3 is None }
//@end
}
impl<'a> Quad<IdRef<'a>, &'a Iri, LocalTermRef<'a>, IdRef<'a>> {
//@fn quad.rs | impl RdfQuadRef<'_> | into_owned
//@  ret r
//@  subst `RdfQuad` => `Quad<Id, IriBuf, LocalTerm, Id>`
//@  eta
//@  closure 0 (IdRef<'_>) -> o: Id requires true ensures o.v() == c0.v()
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v(), match self.3 { Some(g) => r.3 is Some && (r.3->0).v() == g.v(), None => r.3 is None }
//@end
}
