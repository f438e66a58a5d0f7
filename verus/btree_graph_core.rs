//@include @stmt@.rs
//@include laws.rs T=`Triple`
//@include counts.rs T=`Triple`
//@include listing.rs T=`Triple` Ts=`Triples` S=`BTreeGraph`

#[verifier::reject_recursive_types(R)]
//@item dataset/graph/impl/btree_graph.rs | BTreeGraph | `<R = LocalTerm>` => `<R>`
//@item dataset/graph/impl/btree_graph.rs | Resource
impl<R> Resource<R> {
//@fn dataset/graph/impl/btree_graph.rs | impl<R> Resource<R> | new
//@ ret r
//@ spec ensures r.value == $0, r.occurrences == 1
//@end
//@fn dataset/graph/impl/btree_graph.rs | impl<R> Resource<R> | is_empty
//@ ret r
//@ spec ensures r == (self.occurrences == 0)
//@end
}
impl<R: Ord> BTreeGraph<R> {
    pub open spec fn base(&self) -> bool {
        &&& rix(self.resources_indexes@, self.resources@)
        &&& tins(self.resources@, self.triples@)
        &&& tix(self.triples_indexes@, self.resources@, self.triples@)
    }
    pub open spec fn counted(&self) -> bool {
        forall|r: usize| #[trigger] self.resources@.dom().contains(r) ==> self.resources@[r].occurrences == occ(self.triples@, r) && self.resources@[r].occurrences > 0
    }
    pub open spec fn wf(&self) -> bool { self.base() && self.counted() }
    // the graph as a set of triples
    pub open spec fn has(&self, t: Triple<R>) -> bool { holds(self.resources@, self.triples@, t) }
}
//@fn dataset/graph/impl/btree_graph.rs | | resource_cmp
//@ ret f
//@ spec ensures rcmp_ok(f, $0@)
//@ closure 0 (&usize, &R) -> o: Ordering
//@| requires $0@.dom().contains(*c0)
//@| ensures o == ocmp($0@[*c0].value, *c1)
//@ tail rcmp_law(__f, $0@);
//@end
//@fn dataset/graph/impl/btree_graph.rs | | resource_index_cmp
//@ ret f
//@ spec ensures ricmp_ok(f, $0@)
//@ closure 0 (&usize, &usize) -> o: Ordering
//@| requires $0@.dom().contains(*c0), $0@.dom().contains(*c1)
//@| ensures o == ocmp($0@[*c0].value, $0@[*c1].value)
//@ tail ricmp_law(__f, $0@);
//@end
//@fn dataset/graph/impl/btree_graph.rs | | triple_with_resources
//@ ret r
//@ spec requires tin($0@, $1)
//@| ensures derefs(r) == val($0@, $1)
//@end
//@fn dataset/graph/impl/btree_graph.rs | | triple_cmp
//@ ret f
//@ spec ensures tcmp_ok(f, $0@, $1@)
//@ closure 0 (&usize, &Triple<&R>) -> o: Ordering
//@| requires $1@.dom().contains(*c0), tin($0@, $1@[*c0])
//@| ensures o == scmp(val($0@, $1@[*c0]), derefs(*c1))
//@ tail tcmp_law(__f, $0@, $1@);
//@end
//@fn dataset/graph/impl/btree_graph.rs | | triple_index_cmp
//@ ret f
//@ spec ensures ticmp_ok(f, $0@, $1@)
//@ closure 0 (&usize, &usize) -> o: Ordering
//@| requires $1@.dom().contains(*c0), tin($0@, $1@[*c0]), $1@.dom().contains(*c1), tin($0@, $1@[*c1])
//@| ensures o == scmp(val($0@, $1@[*c0]), val($0@, $1@[*c1]))
//@ tail ticmp_law(__f, $0@, $1@);
//@end
impl<R: Ord> BTreeGraph<R> {
//@fn dataset/graph/impl/btree_graph.rs | impl<R: Ord> BTreeGraph<R> | index_of_resource
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some ==> self.resources@.dom().contains(x->0) && self.resources@[x->0].value == *$1,
//@|     x is Some == known(self.resources@, *$1)
//@ proof known_use::<R>();
//@end
//@fn dataset/graph/impl/btree_graph.rs | impl<R: Ord> BTreeGraph<R> | index_of_triple
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some ==> self.triples@.dom().contains(x->0) && val(self.resources@, self.triples@[x->0]) == derefs($1),
//@|     x is Some == self.has(derefs($1))
//@ proof holds_use::<R>();
//@end
//@fn dataset/graph/impl/btree_graph.rs | impl<R: Ord> BTreeGraph<R> | contains_resource
//@ ret r
//@ spec requires self.wf()
//@| ensures r == used(self.resources@, self.triples@, *$1)
//@ proof self.all_used();
//@end
//@fn dataset/graph/impl/btree_graph.rs | impl<R: Ord> BTreeGraph<R> | contains
//@ ret r
//@ spec requires self.base()
//@| ensures r == self.has(derefs($1))
//@end
//@fn dataset/graph/impl/btree_graph.rs | impl<R: Ord> BTreeGraph<R> | insert
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), r == !old(self).has($1),
//@|     forall|u: Triple<R>| #[trigger] final(self).has(u) <==> old(self).has(u) || u == $1
//@ proof tins_use::<R>(); known_use::<R>(); holds_use::<R>(); occ_insert_laws(); occ_fresh::<R>(); self.triples.bounded(); res_insert_laws::<R>(); tr_insert_laws::<R>();
//@end
//@fn dataset/graph/impl/btree_graph.rs | impl<R: Ord> BTreeGraph<R> | remove
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), r == old(self).has(derefs($1)),
//@|     forall|u: Triple<R>| #[trigger] final(self).has(u) <==> old(self).has(u) && u != derefs($1)
//@ proof tins_use::<R>(); known_use::<R>(); holds_use::<R>(); occ_laws(); res_insert_laws::<R>(); tr_remove_laws::<R>(); res_remove_laws::<R>();
//@end
}
impl<R: Ord> BTreeGraph<R> {
    pub proof fn is_busy(&self) requires self.wf() ensures busy(self.resources@, self.triples@) { reveal(busy); occ_laws(); }
}
impl<R> BTreeGraph<R> {
    pub open spec fn clear(&self) -> bool {
        self.resources@ == RMap::<R>::empty() && self.triples@ == TMap::empty() && self.resources_indexes@ == Seq::<usize>::empty() && self.triples_indexes@ == Seq::<usize>::empty()
    }
}
//@include store_iter.rs S=`BTreeGraph` F=`dataset/graph/impl/btree_graph.rs` T=`Triple` t=`triple` ts=`triples` Ts=`Triples` EQ=`impl<R: PartialEq> PartialEq for BTreeGraph<R>` EQT=`Self` CLEAR=`` G=`Graph` gp=`graph_` GP=`Graph`
