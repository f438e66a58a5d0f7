//@include std.rs
//@include iters.rs
//@include quad.rs
//@include laws.rs T=`Quad`
//@include sets.rs T=`Quad`
//@include listing.rs T=`Quad` Ts=`Quads` S=`IndexedBTreeDataset`

#[verifier::reject_recursive_types(R)]
//@item dataset/impl/indexed_btree_dataset.rs | IndexedBTreeDataset | `<R = LocalTerm>` => `<R>`
//@item dataset/impl/indexed_btree_dataset.rs | Resource
impl<R> Resource<R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R> Resource<R> | subject
//@ subst `std::iter::once(i).collect()` => `BTreeSet::only(i)`
//@ ret r
//@ spec ensures r.value == $0, r.as_subject@ == nil().insert($1), r.as_predicate@ == nil(), r.as_object@ == nil(), r.as_graph@ == nil()
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R> Resource<R> | predicate
//@ subst `std::iter::once(i).collect()` => `BTreeSet::only(i)`
//@ ret r
//@ spec ensures r.value == $0, r.as_subject@ == nil(), r.as_predicate@ == nil().insert($1), r.as_object@ == nil(), r.as_graph@ == nil()
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R> Resource<R> | object
//@ subst `std::iter::once(i).collect()` => `BTreeSet::only(i)`
//@ ret r
//@ spec ensures r.value == $0, r.as_subject@ == nil(), r.as_predicate@ == nil(), r.as_object@ == nil().insert($1), r.as_graph@ == nil()
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R> Resource<R> | graph
//@ subst `std::iter::once(i).collect()` => `BTreeSet::only(i)`
//@ ret r
//@ spec ensures r.value == $0, r.as_subject@ == nil(), r.as_predicate@ == nil(), r.as_object@ == nil(), r.as_graph@ == nil().insert($1)
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R> Resource<R> | is_empty
//@ ret r
//@ spec ensures r == (self.as_subject@ == nil() && self.as_predicate@ == nil() && self.as_object@ == nil() && self.as_graph@ == nil())
//@end
}
// the statements of the default graph
#[verifier::opaque]
pub open spec fn at_default(tr: TMap) -> Set<usize> { tr.dom().filter(|i: usize| tr[i].3 is None) }
pub proof fn default_laws()
    ensures
        forall|tr: TMap, k: usize, t: Quad<usize>| !tr.dom().contains(k) ==> #[trigger] at_default(tr.insert(k, t)) == (if t.3 is None { at_default(tr).insert(k) } else { at_default(tr) }),
        forall|tr: TMap, k: usize| tr.dom().contains(k) ==> #[trigger] at_default(tr.remove(k)) == (if tr[k].3 is None { at_default(tr).remove(k) } else { at_default(tr) }),
        at_default(TMap::empty()) == nil(),
{
    reveal(at_default);
    assert forall|tr: TMap, k: usize, t: Quad<usize>| !tr.dom().contains(k) implies #[trigger] at_default(tr.insert(k, t)) == (if t.3 is None { at_default(tr).insert(k) } else { at_default(tr) }) by {
        assert(at_default(tr.insert(k, t)) =~= (if t.3 is None { at_default(tr).insert(k) } else { at_default(tr) }));
    }
    assert forall|tr: TMap, k: usize| tr.dom().contains(k) implies #[trigger] at_default(tr.remove(k)) == (if tr[k].3 is None { at_default(tr).remove(k) } else { at_default(tr) }) by {
        assert(at_default(tr.remove(k)) =~= (if tr[k].3 is None { at_default(tr).remove(k) } else { at_default(tr) }));
    }
    assert(at_default(TMap::empty()) =~= nil());
}
// what a resource records is what the statements say
pub open spec fn links<R>(v: Resource<R>, tr: TMap, r: usize) -> bool {
    v.as_subject@ == at(tr, 0, r) && v.as_predicate@ == at(tr, 1, r) && v.as_object@ == at(tr, 2, r) && v.as_graph@ == at(tr, 3, r)
}
// the statements have the same components, by value, in both
#[verifier::opaque]
pub open spec fn steady<R>(a: RMap<R>, b: RMap<R>, tr: TMap) -> bool { forall|i: usize| tr.dom().contains(i) ==> val(b, #[trigger] tr[i]) == val(a, tr[i]) }
pub proof fn steady_laws<R>()
    ensures
        forall|a: RMap<R>, tr: TMap| #[trigger] steady(a, a, tr),
        forall|a: RMap<R>, res: RMap<R>, tr: TMap, k: usize, v: Resource<R>| steady(a, res, tr) && tins(res, tr) && keeps(res, k, v) ==> #[trigger] steady(a, res.insert(k, v), tr),
        forall|a: RMap<R>, res: RMap<R>, tr: TMap, k: usize| steady(a, res, tr) && tins(res.remove(k), tr) ==> #[trigger] steady(a, res.remove(k), tr),
{
    reveal(steady);
    assert forall|a: RMap<R>, res: RMap<R>, tr: TMap, k: usize, v: Resource<R>| steady(a, res, tr) && tins(res, tr) && keeps(res, k, v) implies #[trigger] steady(a, res.insert(k, v), tr) by {
        assert forall|i: usize| tr.dom().contains(i) implies val(res.insert(k, v), #[trigger] tr[i]) == val(a, tr[i]) by { reveal(tins); assert(tin(res, tr[i])); }
    }
    assert forall|a: RMap<R>, res: RMap<R>, tr: TMap, k: usize| steady(a, res, tr) && tins(res.remove(k), tr) implies #[trigger] steady(a, res.remove(k), tr) by {
        assert forall|i: usize| tr.dom().contains(i) implies val(res.remove(k), #[trigger] tr[i]) == val(a, tr[i]) by { reveal(tins); assert(tin(res.remove(k), tr[i])); }
    }
}
impl<R: Ord> IndexedBTreeDataset<R> {
    pub open spec fn base(&self) -> bool {
        &&& rix(self.resources_indexes@, self.resources@)
        &&& tins(self.resources@, self.quads@)
        &&& tix(self.quads_indexes@, self.resources@, self.quads@)
    }
    pub open spec fn linked(&self) -> bool {
        forall|r: usize| #[trigger] self.resources@.dom().contains(r) ==> links(self.resources@[r], self.quads@, r) && !unused(self.quads@, r)
    }
    pub open spec fn roles(&self) -> bool {
        role(self.subjects@, self.quads@, 0) && role(self.predicates@, self.quads@, 1) && role(self.objects@, self.quads@, 2) && role(self.named_graphs@, self.quads@, 3) && self.default_graph@ == at_default(self.quads@)
    }
    pub open spec fn wf(&self) -> bool { self.base() && self.linked() && self.roles() }
    // the dataset as a set of quads
    pub open spec fn has(&self, t: Quad<R>) -> bool { holds(self.resources@, self.quads@, t) }
    pub proof fn is_busy(&self) requires self.wf() ensures busy(self.resources@, self.quads@) { reveal(busy); }
}
//@fn dataset/impl/indexed_btree_dataset.rs | | resource_cmp
//@ ret f
//@ spec ensures rcmp_ok(f, $0@)
//@ closure 0 (&usize, &R) -> o: Ordering
//@| requires $0@.dom().contains(*c0)
//@| ensures o == ocmp($0@[*c0].value, *c1)
//@ tail rcmp_law(__f, $0@);
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | | resource_index_cmp
//@ ret f
//@ spec ensures ricmp_ok(f, $0@)
//@ closure 0 (&usize, &usize) -> o: Ordering
//@| requires $0@.dom().contains(*c0), $0@.dom().contains(*c1)
//@| ensures o == ocmp($0@[*c0].value, $0@[*c1].value)
//@ tail ricmp_law(__f, $0@);
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | | quad_with_resources
//@ ret r
//@ inline 0
//@ spec requires tin($0@, $1)
//@| ensures derefs(r) == val($0@, $1)
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | | quad_cmp
//@ ret f
//@ spec ensures tcmp_ok(f, $0@, $1@)
//@ closure 0 (&usize, &Quad<&R>) -> o: Ordering
//@| requires $1@.dom().contains(*c0), tin($0@, $1@[*c0])
//@| ensures o == scmp(val($0@, $1@[*c0]), derefs(*c1))
//@ tail tcmp_law(__f, $0@, $1@);
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | | quad_index_cmp
//@ ret f
//@ spec ensures ticmp_ok(f, $0@, $1@), ticmp_del(f, $0@, $1@)
//@ closure 0 (&usize, &usize) -> o: Ordering
//@| requires $1@.dom().contains(*c0), tin($0@, $1@[*c0]), $1@.dom().contains(*c1), tin($0@, $1@[*c1])
//@| ensures o == scmp(val($0@, $1@[*c0]), val($0@, $1@[*c1]))
//@ tail ticmp_law(__f, $0@, $1@); ticmp_del_law(__f, $0@, $1@);
//@end
impl<R: Ord> IndexedBTreeDataset<R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | index_of_resource
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some ==> self.resources@.dom().contains(x->0) && self.resources@[x->0].value == *$1,
//@|     x is Some == known(self.resources@, *$1)
//@ proof known_use::<R>();
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | get_resource
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some == known(self.resources@, *$1),
//@|     x is Some ==> exists|k: usize| #[trigger] self.resources@.dom().contains(k) && *x->0 == self.resources@[k] && x->0.value == *$1
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | index_of_quad
//@ ret x
//@ spec requires self.base()
//@| ensures x is Some ==> self.quads@.dom().contains(x->0) && val(self.resources@, self.quads@[x->0]) == derefs($1),
//@|     x is Some == self.has(derefs($1))
//@ proof holds_use::<R>();
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | contains_resource
//@ ret r
//@ spec requires self.wf()
//@| ensures r == used(self.resources@, self.quads@, *$1)
//@ proof self.all_used();
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | contains
//@ ret r
//@ spec requires self.base()
//@| ensures r == self.has(derefs($1))
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | insert
//@ attr #[verifier::spinoff_prover]
//@ inline 0
//@ ret r
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), r == !old(self).has($1),
//@|     forall|u: Quad<R>| #[trigger] final(self).has(u) <==> old(self).has(u) || u == $1
//@ proof tins_use::<R>(); known_use::<R>(); holds_use::<R>(); at_insert_laws(); default_laws(); at_fresh::<R>(); unused_insert_laws(); role_insert_laws(); res_insert_laws::<R>(); tr_insert_laws::<R>();
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | remove_by_index
//@ attr #[verifier::spinoff_prover]
//@ spec requires rix(old(self).resources_indexes@, old(self).resources@), tins(old(self).resources@, old(self).quads@), old(self).linked(), old(self).roles(),
//@|     old(self).quads@.dom().contains($1),
//@|     $2 ==> tix(old(self).quads_indexes@, old(self).resources@, old(self).quads@),
//@|     !$2 ==> tix(old(self).quads_indexes@, old(self).resources@, old(self).quads@.remove($1)),
//@| ensures final(self).wf(), final(self).quads@ == old(self).quads@.remove($1),
//@|     steady(old(self).resources@, final(self).resources@, old(self).quads@.remove($1)),
//@|     forall|u: Quad<R>| #[trigger] final(self).has(u) == holds(old(self).resources@, old(self).quads@.remove($1), u)
//@ proof steady_laws::<R>(); tins_use::<R>(); at_remove_laws(); default_laws(); at_unused(); at_has(); role_remove_laws(); res_insert_laws::<R>(); tr_remove_laws::<R>(); res_remove_laws::<R>();
//@end
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | remove
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ spec requires old(self).wf()
//@| ensures final(self).wf(), r == old(self).has(derefs($1)),
//@|     forall|u: Quad<R>| #[trigger] final(self).has(u) <==> old(self).has(u) && u != derefs($1)
//@ proof tins_use::<R>(); holds_use::<R>(); tr_remove_laws::<R>();
//@end
}
impl<R> IndexedBTreeDataset<R> {
    pub open spec fn clear(&self) -> bool {
        self.resources@ == RMap::<R>::empty() && self.quads@ == TMap::empty() && self.resources_indexes@ == Seq::<usize>::empty() && self.quads_indexes@ == Seq::<usize>::empty()
        && self.subjects@ == nil() && self.predicates@ == nil() && self.objects@ == nil() && self.named_graphs@ == nil() && self.default_graph@ == nil()
    }
}
//@include store_iter.rs S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs` T=`Quad` t=`quad` ts=`quads` Ts=`Quads` EQ=`impl<R: PartialEq> PartialEq for IndexedBTreeDataset<R>` EQT=`Self` CLEAR=`reveal(role); reveal(at); clear_roles(); default_laws();` G=`Dataset` gp=`` GP=``
//@include role_iter.rs S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs` ts=`quads` C=`Subjects` c=`subjects` N=`0` CT=`impl<R> SubjectTraversableDataset for IndexedBTreeDataset<R> | subject_count` G=`Dataset` gp=`` GP=`` TI=`impl<R> SubjectTraversableDataset for IndexedBTreeDataset<R>`
//@include role_iter.rs S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs` ts=`quads` C=`Predicates` c=`predicates` N=`1` CT=`impl<R> PredicateTraversableDataset for IndexedBTreeDataset<R> | predicate_count` G=`Dataset` gp=`` GP=`` TI=`impl<R> PredicateTraversableDataset for IndexedBTreeDataset<R>`
//@include role_iter.rs S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs` ts=`quads` C=`Objects` c=`objects` N=`2` CT=`impl<R> ObjectTraversableDataset for IndexedBTreeDataset<R> | object_count` G=`Dataset` gp=`` GP=`` TI=`impl<R> ObjectTraversableDataset for IndexedBTreeDataset<R>`
//@include role_iter.rs S=`IndexedBTreeDataset` F=`dataset/impl/indexed_btree_dataset.rs` ts=`quads` C=`NamedGraphs` c=`named_graphs` N=`3` CT=`impl<R> NamedGraphTraversableDataset for IndexedBTreeDataset<R> | named_graph_count` G=`Dataset` gp=`` GP=`` TI=`impl<R> NamedGraphTraversableDataset for IndexedBTreeDataset<R>`
impl<R: Ord> IndexedBTreeDataset<R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R> ResourceTraversableDataset for IndexedBTreeDataset<R> | resource_count
//@ ret r
//@ spec requires self.wf()
//@| ensures r == self.rlist().len()
//@ proof self.listed();
//@end
}
impl<R: Ord> IndexedBTreeDataset<R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> PatternMatchingDataset for IndexedBTreeDataset<R> | contains_quad
//@ as trait_contains
//@ subst `Self::Resource` => `R`
//@ ret r
//@ spec requires self.base()
//@| ensures r == self.has(derefs($1))
//@end
}
