//@include std.rs
//@include iters.rs
//@include triple.rs
//@include laws.rs T=`Triple`
//@include sets.rs T=`Triple`
//@include listing.rs T=`Triple` Ts=`Triples` S=`IndexedBTreeGraph`

#[verifier::reject_recursive_types(R)]
//@item dataset/graph/impl/indexed_btree_graph.rs | IndexedBTreeGraph | `<R = LocalTerm>` => `<R>`
//@item dataset/graph/impl/indexed_btree_graph.rs | Resource
impl<R> Resource<R> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R> Resource<R> | subject
//@ subst `std::iter::once(i).collect()` => `BTreeSet::only(i)`
//@ ret r
//@ spec ensures r.value == $0, r.as_subject@ == nil().insert($1), r.as_predicate@ == nil(), r.as_object@ == nil()
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R> Resource<R> | predicate
//@ subst `std::iter::once(i).collect()` => `BTreeSet::only(i)`
//@ ret r
//@ spec ensures r.value == $0, r.as_subject@ == nil(), r.as_predicate@ == nil().insert($1), r.as_object@ == nil()
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R> Resource<R> | object
//@ subst `std::iter::once(i).collect()` => `BTreeSet::only(i)`
//@ ret r
//@ spec ensures r.value == $0, r.as_subject@ == nil(), r.as_predicate@ == nil(), r.as_object@ == nil().insert($1)
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R> Resource<R> | is_empty
//@ ret r
//@ spec ensures r == (self.as_subject@ == nil() && self.as_predicate@ == nil() && self.as_object@ == nil())
//@end
}
pub proof fn at3() ensures forall|tr: TMap, r: usize| #[trigger] at(tr, 3, r) == nil()
{ assert forall|tr: TMap, r: usize| #[trigger] at(tr, 3, r) == nil() by { reveal(at); assert(at(tr, 3, r) =~= nil()); } }
// what a resource records is what the statements say
pub open spec fn links<R>(v: Resource<R>, tr: TMap, r: usize) -> bool {
    v.as_subject@ == at(tr, 0, r) && v.as_predicate@ == at(tr, 1, r) && v.as_object@ == at(tr, 2, r)
}
impl<R: Ord> IndexedBTreeGraph<R> {
    pub open spec fn base(&self) -> bool {
        &&& rix(self.resources_indexes@, self.resources@)
        &&& tins(self.resources@, self.triples@)
        &&& tix(self.triples_indexes@, self.resources@, self.triples@)
    }
    pub open spec fn linked(&self) -> bool {
        forall|r: usize| #[trigger] self.resources@.dom().contains(r) ==> links(self.resources@[r], self.triples@, r) && !unused(self.triples@, r)
    }
    pub open spec fn roles(&self) -> bool {
        role(self.subjects@, self.triples@, 0) && role(self.predicates@, self.triples@, 1) && role(self.objects@, self.triples@, 2)
    }
    pub open spec fn wf(&self) -> bool { self.base() && self.linked() && self.roles() }
    // the graph as a set of triples
    pub open spec fn has(&self, t: Triple<R>) -> bool { holds(self.resources@, self.triples@, t) }
    pub proof fn is_busy(&self) requires self.wf() ensures busy(self.resources@, self.triples@) { reveal(busy); }
}
//@fn dataset/graph/impl/indexed_btree_graph.rs | | resource_cmp
//@ ret f
//@ spec ensures rcmp_ok(f, $0@)
//@ closure 0 (&usize, &R) -> o: Ordering
//@| requires $0@.dom().contains(*c0)
//@| ensures o == ocmp($0@[*c0].value, *c1)
//@ tail rcmp_law(__f, $0@);
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | | resource_index_cmp
//@ ret f
//@ spec ensures ricmp_ok(f, $0@)
//@ closure 0 (&usize, &usize) -> o: Ordering
//@| requires $0@.dom().contains(*c0), $0@.dom().contains(*c1)
//@| ensures o == ocmp($0@[*c0].value, $0@[*c1].value)
//@ tail ricmp_law(__f, $0@);
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | | triple_with_resources
//@ ret r
//@ spec requires tin($0@, $1)
//@| ensures derefs(r) == val($0@, $1)
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | | triple_cmp
//@ ret f
//@ spec ensures tcmp_ok(f, $0@, $1@)
//@ closure 0 (&usize, &Triple<&R>) -> o: Ordering
//@| requires $1@.dom().contains(*c0), tin($0@, $1@[*c0])
//@| ensures o == scmp(val($0@, $1@[*c0]), derefs(*c1))
//@ tail tcmp_law(__f, $0@, $1@);
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | | triple_index_cmp
//@ ret f
//@ spec ensures ticmp_ok(f, $0@, $1@)
//@ closure 0 (&usize, &usize) -> o: Ordering
//@| requires $1@.dom().contains(*c0), tin($0@, $1@[*c0]), $1@.dom().contains(*c1), tin($0@, $1@[*c1])
//@| ensures o == scmp(val($0@, $1@[*c0]), val($0@, $1@[*c1]))
//@ tail ticmp_law(__f, $0@, $1@);
//@end
impl<R: Ord> IndexedBTreeGraph<R> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | index_of_resource
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some ==> self.resources@.dom().contains(x->0) && self.resources@[x->0].value == *$1,
//@|     x is Some == known(self.resources@, *$1)
//@ proof known_use::<R>();
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | get_resource
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some == known(self.resources@, *$1),
//@|     x is Some ==> exists|k: usize| #[trigger] self.resources@.dom().contains(k) && *x->0 == self.resources@[k] && x->0.value == *$1
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | index_of_triple
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some ==> self.triples@.dom().contains(x->0) && val(self.resources@, self.triples@[x->0]) == derefs($1),
//@|     x is Some == self.has(derefs($1))
//@ proof holds_use::<R>();
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | contains_resource
//@ ret r
//@ spec requires self.wf()
//@| ensures r == used(self.resources@, self.triples@, *$1)
//@ proof self.all_used();
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | contains
//@ ret r
//@ spec requires self.base()
//@| ensures r == self.has(derefs($1))
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | insert
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), r == !old(self).has($1),
//@|     forall|u: Triple<R>| #[trigger] final(self).has(u) <==> old(self).has(u) || u == $1
//@ proof tins_use::<R>(); known_use::<R>(); holds_use::<R>(); at_insert_laws(); at_fresh::<R>(); unused_insert_laws(); role_insert_laws(); res_insert_laws::<R>(); tr_insert_laws::<R>();
//@end
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> IndexedBTreeGraph<R> | remove
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), r == old(self).has(derefs($1)),
//@|     forall|u: Triple<R>| #[trigger] final(self).has(u) <==> old(self).has(u) && u != derefs($1)
//@ proof tins_use::<R>(); known_use::<R>(); holds_use::<R>(); at_remove_laws(); at_unused(); at_has(); at3(); role_remove_laws(); res_insert_laws::<R>(); tr_remove_laws::<R>(); res_remove_laws::<R>();
//@end
}
impl<R> IndexedBTreeGraph<R> {
    pub open spec fn clear(&self) -> bool {
        self.resources@ == RMap::<R>::empty() && self.triples@ == TMap::empty() && self.resources_indexes@ == Seq::<usize>::empty() && self.triples_indexes@ == Seq::<usize>::empty()
        && self.subjects@ == nil() && self.predicates@ == nil() && self.objects@ == nil()
    }
}
//@include store_iter.rs S=`IndexedBTreeGraph` F=`dataset/graph/impl/indexed_btree_graph.rs` T=`Triple` t=`triple` ts=`triples` Ts=`Triples` EQ=`impl<R: PartialEq> PartialEq for IndexedBTreeGraph<R>` EQT=`Self` CLEAR=`reveal(role); reveal(at); clear_roles();` G=`Graph` gp=`graph_` GP=`Graph`
//@include role_iter.rs S=`IndexedBTreeGraph` F=`dataset/graph/impl/indexed_btree_graph.rs` ts=`triples` C=`Subjects` c=`subjects` N=`0` CT=`impl<R> SubjectTraversableGraph for IndexedBTreeGraph<R> | graph_subject_count` G=`Graph` gp=`graph_` GP=`Graph` TI=`impl<R> SubjectTraversableGraph for IndexedBTreeGraph<R>`
//@include role_iter.rs S=`IndexedBTreeGraph` F=`dataset/graph/impl/indexed_btree_graph.rs` ts=`triples` C=`Predicates` c=`predicates` N=`1` CT=`impl<R> PredicateTraversableGraph for IndexedBTreeGraph<R> | graph_predicate_count` G=`Graph` gp=`graph_` GP=`Graph` TI=`impl<R> PredicateTraversableGraph for IndexedBTreeGraph<R>`
//@include role_iter.rs S=`IndexedBTreeGraph` F=`dataset/graph/impl/indexed_btree_graph.rs` ts=`triples` C=`Objects` c=`objects` N=`2` CT=`impl<R> ObjectTraversableGraph for IndexedBTreeGraph<R> | graph_object_count` G=`Graph` gp=`graph_` GP=`Graph` TI=`impl<R> ObjectTraversableGraph for IndexedBTreeGraph<R>`
impl<R: Ord> IndexedBTreeGraph<R> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R> ResourceTraversableGraph for IndexedBTreeGraph<R> | graph_resource_count
//@ ret r
//@ spec requires self.wf()
//@| ensures r == self.rlist().len()
//@ proof self.listed();
//@end
}
impl<R: Ord> IndexedBTreeGraph<R> {
//@fn dataset/graph/impl/indexed_btree_graph.rs | impl<R: Ord> PatternMatchingGraph for IndexedBTreeGraph<R> | contains_triple
//@ as trait_contains
//@ subst `Self::Resource` => `R`
//@ ret r
//@ spec requires self.base()
//@| ensures r == self.has(derefs($1))
//@end
}
