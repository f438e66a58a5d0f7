use vstd::prelude::*;
use std::cmp::Ordering;
use std::ops::{Index, IndexMut};
verus! {
global size_of usize == 8;
//@trust indexed_dataset
//@include indexed_dataset_core.rs
//@endtrust
//@include match.rs
//@include index_vec.rs
// the graph that is returned: a BTreeGraph, as specified in the unit btree_graph
pub mod graph {
use super::*;
//@trust btree_graph
//@include btree_graph_core.rs stmt=`triple`
//@endtrust
}
use graph::{BTreeGraph, Triple};
pub open spec fn triple_of<R>(u: Quad<R>) -> Triple<R> { Triple(u.0, u.1, u.2) }
impl BTreeSet<usize> {
    #[verifier::external_body]
    pub fn contains(&self, i: &usize) -> (r: bool) ensures r == self@.contains(*i) { unimplemented!() }
}
impl<S, P, O, G> Quad<S, P, O, G> {
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_triple
//@ ret r
//@ spec ensures r.0 == Triple(self.0, self.1, self.2), r.1 == self.3
//@end
}
// the statements of the graph g not listed in l
#[verifier::opaque]
pub open spec fn got<R>(res: RMap<R>, tr: TMap, g: Option<R>, l: Seq<usize>, t: Triple<R>) -> bool {
    exists|k: usize| #[trigger] tr.dom().contains(k) && !l.contains(k) && val(res, tr[k]) == Quad(t.0, t.1, t.2, g)
}
// l lists statements of the graph g, without repetition
#[verifier::opaque]
pub open spec fn lists<R>(res: RMap<R>, tr: TMap, g: Option<R>, l: Seq<usize>) -> bool {
    &&& ascending(l)
    &&& forall|i: int| 0 <= i < l.len() ==> tr.dom().contains(#[trigger] l[i]) && val(res, tr[l[i]]).3 == g
}
#[verifier::opaque]
pub open spec fn lists_all<R>(res: RMap<R>, tr: TMap, g: Option<R>, l: Seq<usize>) -> bool {
    lists(res, tr, g, l) && forall|k: usize| #[trigger] tr.dom().contains(k) && val(res, tr[k]).3 == g ==> l.contains(k)
}
// now is what is left of was once the statements of the graph g not listed in l are gone
#[verifier::opaque]
pub open spec fn cut<R>(r0: RMap<R>, t0: TMap, r1: RMap<R>, t1: TMap, g: Option<R>, l: Seq<usize>) -> bool {
    &&& steady(r0, r1, t1)
    &&& forall|k: usize| #[trigger] t1.dom().contains(k) ==> t0.dom().contains(k) && t1[k] == t0[k] && (val(r0, t0[k]).3 == g ==> l.contains(k))
    &&& forall|k: usize| #[trigger] t0.dom().contains(k) && (val(r0, t0[k]).3 == g ==> l.contains(k)) ==> t1.dom().contains(k)
}
pub proof fn cut_laws<R>()
    ensures
        forall|r0: RMap<R>, t0: TMap, g: Option<R>, l: Seq<usize>| #[trigger] lists_all(r0, t0, g, l) ==> lists(r0, t0, g, l) && cut(r0, t0, r0, t0, g, l) && forall|t: Triple<R>| !#[trigger] got(r0, t0, g, l, t),
        forall|r0: RMap<R>, t0: TMap, g: Option<R>, l: Seq<usize>| #[trigger] lists(r0, t0, g, l) && l.len() > 0 ==> lists(r0, t0, g, l.skip(1)) && t0.dom().contains(l[0]),
        forall|r0: RMap<R>, t0: TMap, r1: RMap<R>, t1: TMap, g: Option<R>, l: Seq<usize>| #[trigger] cut(r0, t0, r1, t1, g, l) && lists(r0, t0, g, l) && l.len() > 0 ==> t1.dom().contains(l[0]) && val(r1, t1[l[0]]) == val(r0, t0[l[0]]),
        forall|r0: RMap<R>, t0: TMap, r1: RMap<R>, t1: TMap, g: Option<R>, l: Seq<usize>, r2: RMap<R>| #[trigger] cut(r0, t0, r1, t1, g, l) && lists(r0, t0, g, l) && l.len() > 0 && #[trigger] steady(r1, r2, t1.remove(l[0])) ==> cut(r0, t0, r2, t1.remove(l[0]), g, l.skip(1)),
        forall|r0: RMap<R>, t0: TMap, g: Option<R>, l: Seq<usize>, t: Triple<R>| lists(r0, t0, g, l) && l.len() > 0 ==> #[trigger] got(r0, t0, g, l.skip(1), t) == (got(r0, t0, g, l, t) || t == triple_of(val(r0, t0[l[0]]))),
{
    reveal(lists); reveal(lists_all); reveal(cut); reveal(got); reveal(steady);
    skips();
    assert forall|r0: RMap<R>, t0: TMap, g: Option<R>, l: Seq<usize>, t: Triple<R>| lists(r0, t0, g, l) && l.len() > 0 implies #[trigger] got(r0, t0, g, l.skip(1), t) == (got(r0, t0, g, l, t) || t == triple_of(val(r0, t0[l[0]]))) by {
        if t == triple_of(val(r0, t0[l[0]])) { assert(t0.dom().contains(l[0]) && !l.skip(1).contains(l[0]) && val(r0, t0[l[0]]) == Quad(t.0, t.1, t.2, g)); }
    }
    assert forall|r0: RMap<R>, t0: TMap, r1: RMap<R>, t1: TMap, g: Option<R>, l: Seq<usize>, r2: RMap<R>| #[trigger] cut(r0, t0, r1, t1, g, l) && lists(r0, t0, g, l) && l.len() > 0 && #[trigger] steady(r1, r2, t1.remove(l[0])) implies cut(r0, t0, r2, t1.remove(l[0]), g, l.skip(1)) by {
        let t2 = t1.remove(l[0]);
        assert forall|i: usize| t2.dom().contains(i) implies val(r2, #[trigger] t2[i]) == val(r0, t2[i]) by { assert(t1.dom().contains(i)); assert(t1[i] == t2[i]); assert(val(r1, t1[i]) == val(r0, t1[i])); }
    }
}
pub proof fn skips()
    ensures
        forall|l: Seq<usize>| #[trigger] ascending(l) && l.len() > 0 ==> ascending(l.skip(1)) && !l.skip(1).contains(l[0]) && l.contains(l[0]),
        forall|l: Seq<usize>, k: usize| l.len() > 0 && k != l[0] ==> #[trigger] l.skip(1).contains(k) == l.contains(k),
{
    assert forall|l: Seq<usize>, k: usize| l.len() > 0 && k != l[0] implies #[trigger] l.skip(1).contains(k) == l.contains(k) by {
        let t = l.skip(1);
        if l.contains(k) { let i = choose|i: int| 0 <= i < l.len() && l[i] == k; assert(t[i - 1] == k); }
        if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(l[i + 1] == k); }
    }
    assert forall|l: Seq<usize>| #[trigger] ascending(l) && l.len() > 0 implies ascending(l.skip(1)) && !l.skip(1).contains(l[0]) && l.contains(l[0]) by { assert(l.contains(l[0])); }
}
// once nothing is left to cut
pub proof fn cut_end<R>()
    ensures forall|r0: RMap<R>, t0: TMap, r1: RMap<R>, t1: TMap, g: Option<R>, l: Seq<usize>, u: Quad<R>|
        #[trigger] cut(r0, t0, r1, t1, g, l) && l.len() == 0 ==> #[trigger] holds(r1, t1, u) == (holds(r0, t0, u) && u.3 != g),
        forall|r0: RMap<R>, t0: TMap, g: Option<R>, l: Seq<usize>, t: Triple<R>| l.len() == 0 ==> #[trigger] got(r0, t0, g, l, t) == holds(r0, t0, Quad(t.0, t.1, t.2, g)),
{
    reveal(cut); reveal(got); reveal(steady); reveal(holds);
    assert forall|r0: RMap<R>, t0: TMap, r1: RMap<R>, t1: TMap, g: Option<R>, l: Seq<usize>, u: Quad<R>|
        #[trigger] cut(r0, t0, r1, t1, g, l) && l.len() == 0 implies #[trigger] holds(r1, t1, u) == (holds(r0, t0, u) && u.3 != g) by {
        if holds(r1, t1, u) { let i = choose|i: usize| t1.dom().contains(i) && val(r1, #[trigger] t1[i]) == u; assert(t0.dom().contains(i) && val(r0, t0[i]) == u); }
        if holds(r0, t0, u) && u.3 != g { let i = choose|i: usize| t0.dom().contains(i) && val(r0, #[trigger] t0[i]) == u; assert(t1.dom().contains(i) && val(r1, t1[i]) == u); }
    }
    assert forall|r0: RMap<R>, t0: TMap, g: Option<R>, l: Seq<usize>, t: Triple<R>| l.len() == 0 implies #[trigger] got(r0, t0, g, l, t) == holds(r0, t0, Quad(t.0, t.1, t.2, g)) by {
        if holds(r0, t0, Quad(t.0, t.1, t.2, g)) { let i = choose|i: usize| t0.dom().contains(i) && val(r0, #[trigger] t0[i]) == Quad(t.0, t.1, t.2, g); assert(!l.contains(i)); }
    }
}
// the statements of a named graph are those linked to its resource; those of the default graph are listed
pub proof fn graph_lists<R: Ord>(rx: Seq<usize>, res: RMap<R>, tr: TMap)
    requires rix(rx, res), tins(res, tr)
    ensures
        forall|b: BTreeSet<usize>, k: usize| #![trigger b.order(), res[k]] res.dom().contains(k) && b@ == at(tr, 3, k) ==> lists_all(res, tr, Some(res[k].value), b.order()),
        forall|b: BTreeSet<usize>| #![trigger b.order()] b@ == at_default(tr) ==> lists_all(res, tr, None, b.order()),
        forall|k: usize, u: Quad<R>| res.dom().contains(k) && #[trigger] at(tr, 3, k) == nil() && #[trigger] holds(res, tr, u) ==> u.3 != Some(res[k].value),
        forall|g: R, u: Quad<R>| !#[trigger] known(res, g) && #[trigger] holds(res, tr, u) ==> u.3 != Some(g),
        forall|k: usize| res.dom().contains(k) && #[trigger] at(tr, 3, k) != nil() ==> exists|u: Quad<R>| #[trigger] holds(res, tr, u) && u.3 == Some(res[k].value),
{
    at_is(rx, res, tr); reveal(lists_all); reveal(lists); reveal(at_default); holds_use::<R>();
    assert forall|b: BTreeSet<usize>, k: usize| #![trigger b.order(), res[k]] res.dom().contains(k) && b@ == at(tr, 3, k) implies lists_all(res, tr, Some(res[k].value), b.order()) by {
        b.ordered();
        assert forall|i: int| 0 <= i < b.order().len() implies tr.dom().contains(#[trigger] b.order()[i]) && val(res, tr[b.order()[i]]).3 == Some(res[k].value) by {
            assert(at(tr, 3, k).contains(b.order()[i])); assert(vcomp(val(res, tr[b.order()[i]]), 3) == Some(res[k].value));
        }
        assert forall|i: usize| #[trigger] tr.dom().contains(i) && val(res, tr[i]).3 == Some(res[k].value) implies b.order().contains(i) by { assert(at(tr, 3, k).contains(i) == (vcomp(val(res, tr[i]), 3) == Some(res[k].value))); }
    }
    assert forall|b: BTreeSet<usize>| #![trigger b.order()] b@ == at_default(tr) implies lists_all(res, tr, None, b.order()) by {
        b.ordered();
        assert forall|i: int| 0 <= i < b.order().len() implies tr.dom().contains(#[trigger] b.order()[i]) && val(res, tr[b.order()[i]]).3 == None::<R> by { assert(at_default(tr).contains(b.order()[i])); }
        assert forall|i: usize| #[trigger] tr.dom().contains(i) && val(res, tr[i]).3 == None::<R> implies b.order().contains(i) by { assert(at_default(tr).contains(i)); }
    }
    assert forall|k: usize, u: Quad<R>| res.dom().contains(k) && #[trigger] at(tr, 3, k) == nil() && #[trigger] holds(res, tr, u) implies u.3 != Some(res[k].value) by {
        let i = choose|i: usize| #[trigger] tr.dom().contains(i) && val(res, tr[i]) == u;
        assert(!at(tr, 3, k).contains(i)); assert(vcomp(u, 3) == u.3);
    }
    assert forall|k: usize| res.dom().contains(k) && #[trigger] at(tr, 3, k) != nil() implies exists|u: Quad<R>| #[trigger] holds(res, tr, u) && u.3 == Some(res[k].value) by {
        if forall|i: usize| !at(tr, 3, k).contains(i) { assert(at(tr, 3, k) =~= nil()); }
        let i = choose|i: usize| at(tr, 3, k).contains(i);
        let u = val(res, tr[i]);
        assert(holds(res, tr, u)); assert(vcomp(u, 3) == u.3);
    }
}
pub proof fn role_use() ensures forall|s: Set<usize>, tr: TMap, c: int, r: usize| #[trigger] role(s, tr, c) && #[trigger] s.contains(r) ==> at(tr, c, r) != nil(),
    forall|s: Set<usize>, tr: TMap, c: int, r: usize| #[trigger] role(s, tr, c) && !#[trigger] s.contains(r) ==> at(tr, c, r) == nil() { reveal(role); }
impl<R: Ord> IndexedBTreeDataset<R> {
//@fn dataset/impl/indexed_btree_dataset.rs | impl<R: Ord> IndexedBTreeDataset<R> | remove_graph
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ subst `self.resources[g_i].as_graph.iter().copied().collect()` => `self.resources[g_i].as_graph.iter().copied().collect_vec()`
//@ subst `self.default_graph.iter().copied().collect()` => `self.default_graph.iter().copied().collect_vec()`
//@ into 0 Vec::into_iter
//@ ghost g0 = deref_opt($1)
//@ loop 0 invariant self.wf(), graph.wf(),
//@|    lists(old(self).resources@, old(self).quads@, g0, __it0.rest()),
//@|    cut(old(self).resources@, old(self).quads@, self.resources@, self.quads@, g0, __it0.rest()),
//@|    forall|t: Triple<R>| #[trigger] graph.has(t) == got(old(self).resources@, old(self).quads@, g0, __it0.rest(), t)
//@| decreases __it0.rest().len()
//@ spec requires old(self).wf()
//@| ensures final(self).wf(),
//@|    forall|u: Quad<R>| #[trigger] final(self).has(u) == (old(self).has(u) && u.3 != deref_opt($1)),
//@|    r is Some ==> r->0.wf() && forall|t: Triple<R>| #[trigger] r->0.has(t) == old(self).has(Quad(t.0, t.1, t.2, deref_opt($1))),
//@|    $1 is None ==> r is Some,
//@|    $1 is Some ==> (r is Some) == placed(old(self).resources@, old(self).quads@, *$1->0, 3)
//@ proof role_use(); graph_lists(self.resources_indexes@, self.resources@, self.quads@); cut_laws::<R>(); cut_end::<R>(); tins_use::<R>(); graph::all_clear_wf::<R>();
//@end
}
}
