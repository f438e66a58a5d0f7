// ---- listings: a sequence listing each of the things satisfying p once, and nothing else
pub open spec fn lists<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> bool { s.no_duplicates() && forall|a: A| #[trigger] s.contains(a) == p(a) }
// any two listings of the same things have the same length: the number of things
pub proof fn one_count<A>(s: Seq<A>, t: Seq<A>, p: spec_fn(A) -> bool)
    requires lists(s, p), lists(t, p)
    ensures s.len() == t.len()
{
    s.unique_seq_to_set(); t.unique_seq_to_set();
    assert(s.to_set() =~= t.to_set());
}
pub proof fn one_counts<A>()
    ensures forall|s: Seq<A>, t: Seq<A>, p: spec_fn(A) -> bool| #[trigger] lists(s, p) && #[trigger] lists(t, p) ==> s.len() == t.len()
{
    assert forall|s: Seq<A>, t: Seq<A>, p: spec_fn(A) -> bool| #[trigger] lists(s, p) && #[trigger] lists(t, p) implies s.len() == t.len() by { one_count(s, t, p); }
}
pub open spec fn counts<A>(n: usize, p: spec_fn(A) -> bool) -> bool { forall|s: Seq<A>| #![trigger lists(s, p)] #![trigger s.no_duplicates()] lists(s, p) ==> n == s.len() }
// the listing of things mapped one to one
pub proof fn lists_map<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B, q: spec_fn(B) -> bool)
    requires lists(s, p), forall|a: A, b: A| p(a) && p(b) && #[trigger] f(a) == #[trigger] f(b) ==> a == b, forall|a: A| p(a) ==> q(#[trigger] f(a)), forall|b: B| #[trigger] q(b) ==> exists|a: A| #[trigger] p(a) && #[trigger] f(a) == b
    ensures lists(s.map_values(f), q)
{
    let t = s.map_values(f);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        assert(s.contains(s[i]) && s.contains(s[j]));
        assert(t[i] == f(s[i]) && t[j] == f(s[j]));
    }
    assert forall|b: B| #[trigger] t.contains(b) == q(b) by {
        if t.contains(b) { let i = choose|i: int| 0 <= i < t.len() && t[i] == b; assert(s.contains(s[i])); assert(b == f(s[i])); }
        if q(b) { let a = choose|a: A| p(a) && #[trigger] f(a) == b; assert(s.contains(a)); let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(t[i] == b); }
    }
}
pub proof fn first_or_none<A>()
    ensures forall|s: Seq<A>| s.len() > 0 ==> s.contains(#[trigger] s[0]), forall|s: Seq<A>, p: spec_fn(A) -> bool| #[trigger] lists(s, p) && s.len() > 0 ==> p(s[0])
{
    assert forall|s: Seq<A>, p: spec_fn(A) -> bool| #[trigger] lists(s, p) && s.len() > 0 implies p(s[0]) by { assert(s.contains(s[0])); }
}
// core::iter::Iterator, for finite iterators: what is left to yield is a sequence
pub open spec fn step<A>(before: Seq<A>, after: Seq<A>, r: Option<A>) -> bool {
    if before.len() == 0 { r is None && after == before } else { r == Some(before[0]) && after == before.skip(1) }
}
pub trait Iterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>) ensures step(old(self).rest(), final(self).rest(), r);
    // (a listing longer than usize::MAX does not fit in memory)
    #[verifier::external_body]
    fn count(self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
}
pub struct Empty<T>(PhantomData<T>);
impl<T> Empty<T> { pub open spec fn rest(&self) -> Seq<T> { Seq::empty() } }
pub fn empty<T>() -> (r: Empty<T>) { Empty(PhantomData) }
impl<S, P, O, G> Quad<S, P, O, G> {
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | into_object
//@ ret r
//@ spec ensures r == self.2
//@end
}
impl<S, P, O> Triple<S, P, O> {
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | into_object
//@ ret r
//@ spec ensures r == self.2
//@end
}
// (a trait only so that the components can be named by the item of an iterator)
pub trait AnyTriple: Sized {
    type S; type P; type O;
    spec fn v(&self) -> Triple<Self::S, Self::P, Self::O>;
    fn into_quad<G>(self, graph: Option<G>) -> (r: Quad<Self::S, Self::P, Self::O, G>) ensures r == Quad(self.v().0, self.v().1, self.v().2, graph);
}
impl<S, P, O> AnyTriple for Triple<S, P, O> {
    type S = S; type P = P; type O = O;
    open spec fn v(&self) -> Triple<S, P, O> { *self }
//@fn triple.rs | impl<S, P, O> Triple<S, P, O> | into_quad
//@ bare
//@ ret r
//@end
}
// ---- utils.rs: the adapters
//@item utils.rs | InfallibleIterator
//@item utils.rs | TripleToQuadIterator
//@item utils.rs | OptionIterator
impl<I, G> TripleToQuadIterator<I, G> {
//@fn utils.rs | impl<I, G> TripleToQuadIterator<I, G> | new
//@ ret r
//@ spec ensures r.0 == $0
//@end
}
impl<I: Iterator> Iterator for InfallibleIterator<I> {
    type Item = Result<I::Item, Infallible>;
    open spec fn rest(&self) -> Seq<Self::Item> { self.0.rest().map_values(|x: I::Item| Ok::<I::Item, Infallible>(x)) }
//@fn utils.rs | impl<I: Iterator> Iterator for InfallibleIterator<I> | next
//@ bare
//@ eta
//@ inline *
//@ ret r
//@ proof if self.0.rest().len() > 0 { assert(self.0.rest().skip(1).map_values(|x: I::Item| Ok::<I::Item, Infallible>(x)) =~= self.rest().skip(1)); }
//@end
}
pub open spec fn in_default<T: AnyTriple, G>(t: T) -> Quad<T::S, T::P, T::O, G> { Quad(t.v().0, t.v().1, t.v().2, None) }
impl<G, I: Iterator> Iterator for TripleToQuadIterator<I, G> where I::Item: AnyTriple {
    type Item = Quad<<I::Item as AnyTriple>::S, <I::Item as AnyTriple>::P, <I::Item as AnyTriple>::O, G>;
    open spec fn rest(&self) -> Seq<Self::Item> { self.0.rest().map_values(|t: I::Item| in_default::<I::Item, G>(t)) }
//@fn utils.rs | impl<S, P, O, G, I: Iterator<Item = Triple<S, P, O>>> Iterator for TripleToQuadIterator<I, G> | next
//@ bare
//@ eta
//@ inline *
//@ ret r
//@ proof if self.0.rest().len() > 0 { assert(self.0.rest().skip(1).map_values(|t: I::Item| in_default::<I::Item, G>(t)) =~= self.rest().skip(1)); }
//@end
}
impl<I: Iterator> Iterator for OptionIterator<I> {
    type Item = I::Item;
    open spec fn rest(&self) -> Seq<Self::Item> { match self.0 { Some(i) => i.rest(), None => Seq::empty() } }
//@fn utils.rs | impl<I: Iterator> Iterator for OptionIterator<I> | next
//@ bare
//@ eta
//@ inline *
//@ ret r
//@end
}
// ---- dataset/graph/mod.rs
pub mod pattern { pub use crate::quad; pub use crate::triple; }
pub trait Graph {
    type Resource;
    spec fn has(&self, u: Triple<&Self::Resource>) -> bool;
}
// the quads of a graph used as a dataset: its triples, in the default graph
pub open spec fn qhas<G: Graph + ?Sized>(g: &G, u: Quad<&G::Resource>) -> bool { u.3 is None && g.has(Triple(u.0, u.1, u.2)) }
pub trait TraversableGraph: Graph {
    type Triples<'a>: Iterator<Item = Triple<&'a Self::Resource>> where Self: 'a;
    fn triples(&self) -> (r: Self::Triples<'_>) ensures lists(r.rest(), |u: Triple<&Self::Resource>| self.has(u));
//@fn dataset/graph/mod.rs | trait TraversableGraph : Graph | triples_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |u: Triple<&Self::Resource>| self.has(u))
//@ proof one_counts::<Triple<&Self::Resource>>();
//@end
}
pub trait ResourceTraversableGraph: Graph {
    type GraphResources<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn graph_resources(&self) -> (r: Self::GraphResources<'_>) ensures lists(r.rest(), |x: &Self::Resource| (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.0 == x) || (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.1 == x) || (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.2 == x));
//@fn dataset/graph/mod.rs | trait ResourceTraversableGraph : Graph | graph_resource_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.0 == x) || (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.1 == x) || (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.2 == x))
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait SubjectTraversableGraph: Graph {
    type GraphSubjects<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn graph_subjects(&self) -> (r: Self::GraphSubjects<'_>) ensures lists(r.rest(), |x: &Self::Resource| exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.0 == x);
//@fn dataset/graph/mod.rs | trait SubjectTraversableGraph : Graph | graph_subject_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.0 == x)
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait PredicateTraversableGraph: Graph {
    type GraphPredicates<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn graph_predicates(&self) -> (r: Self::GraphPredicates<'_>) ensures lists(r.rest(), |x: &Self::Resource| exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.1 == x);
//@fn dataset/graph/mod.rs | trait PredicateTraversableGraph : Graph | graph_predicate_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.1 == x)
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait ObjectTraversableGraph: Graph {
    type GraphObjects<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn graph_objects(&self) -> (r: Self::GraphObjects<'_>) ensures lists(r.rest(), |x: &Self::Resource| exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.2 == x);
//@fn dataset/graph/mod.rs | trait ObjectTraversableGraph : Graph | graph_object_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.2 == x)
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait PatternMatchingGraph: Graph {
    type TriplePatternMatching<'a, 'p>: Iterator<Item = Triple<&'a Self::Resource>> where Self: 'a, Self::Resource: 'p;
    fn triple_pattern_matching<'p>(&self, pattern: CanonicalTriplePattern<&'p Self::Resource>) -> (r: Self::TriplePatternMatching<'_, 'p>)
        ensures r.rest().no_duplicates(), forall|u: Triple<&Self::Resource>| #![trigger r.rest().contains(u)] #![trigger self.has(u)] r.rest().contains(u) == (self.has(u) && triple::canonical::sat(pattern, u));
//@fn dataset/graph/mod.rs | trait PatternMatchingGraph : Graph | contains_triple
//@ bare
//@ ret r
//@ spec ensures r == (self.has($1))
//@ proof first_or_none::<Triple<&Self::Resource>>();
//@end
//@fn dataset/graph/mod.rs | trait PatternMatchingGraph : Graph | contains_triple_subject
//@ bare
//@ ret r
//@ spec ensures r == (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.0 == $1)
//@ proof first_or_none::<Triple<&Self::Resource>>();
//@end
//@fn dataset/graph/mod.rs | trait PatternMatchingGraph : Graph | contains_triple_predicate
//@ bare
//@ ret r
//@ spec ensures r == (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.1 == $1)
//@ proof first_or_none::<Triple<&Self::Resource>>();
//@end
//@fn dataset/graph/mod.rs | trait PatternMatchingGraph : Graph | contains_triple_object
//@ bare
//@ ret r
//@ spec ensures r == (exists|u: Triple<&Self::Resource>| #[trigger] self.has(u) && u.2 == $1)
//@ proof first_or_none::<Triple<&Self::Resource>>();
//@end
}
// ---- dataset/mod.rs
pub trait Dataset { type Resource; spec fn has(&self, u: Quad<&Self::Resource>) -> bool; }
pub trait TraversableDataset: Dataset {
    type Quads<'a>: Iterator<Item = Quad<&'a Self::Resource>> where Self: 'a;
    fn quads(&self) -> (r: Self::Quads<'_>) ensures lists(r.rest(), |u: Quad<&Self::Resource>| self.has(u));
//@fn dataset/mod.rs | trait TraversableDataset : Dataset | quads_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |u: Quad<&Self::Resource>| self.has(u))
//@ proof one_counts::<Quad<&Self::Resource>>();
//@end
}
pub trait ResourceTraversableDataset: Dataset {
    type Resources<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn resources(&self) -> (r: Self::Resources<'_>) ensures lists(r.rest(), |x: &Self::Resource| (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.0 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.1 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.2 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.3 == Some(x)));
//@fn dataset/mod.rs | trait ResourceTraversableDataset : Dataset | resource_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.0 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.1 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.2 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.3 == Some(x)))
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait SubjectTraversableDataset: Dataset {
    type Subjects<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn subjects(&self) -> (r: Self::Subjects<'_>) ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.0 == x);
//@fn dataset/mod.rs | trait SubjectTraversableDataset : Dataset | subject_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.0 == x)
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait PredicateTraversableDataset: Dataset {
    type Predicates<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn predicates(&self) -> (r: Self::Predicates<'_>) ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.1 == x);
//@fn dataset/mod.rs | trait PredicateTraversableDataset : Dataset | predicate_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.1 == x)
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait ObjectTraversableDataset: Dataset {
    type Objects<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn objects(&self) -> (r: Self::Objects<'_>) ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.2 == x);
//@fn dataset/mod.rs | trait ObjectTraversableDataset : Dataset | object_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.2 == x)
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait NamedGraphTraversableDataset: Dataset {
    type NamedGraphs<'a>: Iterator<Item = &'a Self::Resource> where Self: 'a;
    fn named_graphs(&self) -> (r: Self::NamedGraphs<'_>) ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.3 == Some(x));
//@fn dataset/mod.rs | trait NamedGraphTraversableDataset : Dataset | named_graph_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.3 == Some(x))
//@ proof one_counts::<&Self::Resource>();
//@end
}
pub trait PatternMatchingDataset: Dataset {
    type QuadPatternMatching<'a, 'p>: Iterator<Item = Quad<&'a Self::Resource>> where Self: 'a, Self::Resource: 'p;
    fn quad_pattern_matching<'p>(&self, pattern: CanonicalQuadPattern<&'p Self::Resource>) -> (r: Self::QuadPatternMatching<'_, 'p>)
        ensures r.rest().no_duplicates(), forall|u: Quad<&Self::Resource>| #![trigger r.rest().contains(u)] #![trigger self.has(u)] r.rest().contains(u) == (self.has(u) && quad::canonical::sat(pattern, u));
//@fn dataset/mod.rs | trait PatternMatchingDataset : Dataset | contains_quad
//@ bare
//@ ret r
//@ spec ensures r == (self.has($1))
//@ proof first_or_none::<Quad<&Self::Resource>>();
//@end
//@fn dataset/mod.rs | trait PatternMatchingDataset : Dataset | contains_quad_subject
//@ bare
//@ ret r
//@ spec ensures r == (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.0 == $1)
//@ proof first_or_none::<Quad<&Self::Resource>>();
//@end
//@fn dataset/mod.rs | trait PatternMatchingDataset : Dataset | contains_quad_predicate
//@ bare
//@ ret r
//@ spec ensures r == (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.1 == $1)
//@ proof first_or_none::<Quad<&Self::Resource>>();
//@end
//@fn dataset/mod.rs | trait PatternMatchingDataset : Dataset | contains_quad_object
//@ bare
//@ ret r
//@ spec ensures r == (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.2 == $1)
//@ proof first_or_none::<Quad<&Self::Resource>>();
//@end
//@fn dataset/mod.rs | trait PatternMatchingDataset : Dataset | contains_named_graph
//@ bare
//@ ret r
//@ spec ensures r == (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.3 == Some($1))
//@ proof first_or_none::<Quad<&Self::Resource>>();
//@end
}
// ---- a graph used as a dataset (the blanket implementations; traits only so that the associated types can be named)
pub proof fn default_graph<R, I: Iterator<Item = Triple<R>>>()
    ensures forall|it: TripleToQuadIterator<I, R>| #![trigger it.rest()] it.0.rest().no_duplicates() ==> it.rest().no_duplicates(),
        forall|it: TripleToQuadIterator<I, R>, u: Quad<R>| #[trigger] it.rest().contains(u) == (u.3 is None && it.0.rest().contains(Triple(u.0, u.1, u.2)))
{
    assert forall|it: TripleToQuadIterator<I, R>| it.0.rest().no_duplicates() implies (#[trigger] it.rest()).no_duplicates() by {
        let s = it.0.rest(); let t = it.rest();
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); }
    }
    assert forall|it: TripleToQuadIterator<I, R>, u: Quad<R>| #[trigger] it.rest().contains(u) == (u.3 is None && it.0.rest().contains(Triple(u.0, u.1, u.2))) by {
        let s = it.0.rest(); let t = it.rest(); let w = Triple(u.0, u.1, u.2);
        if t.contains(u) { let i = choose|i: int| 0 <= i < t.len() && t[i] == u; assert(s[i] == w); }
        if u.3 is None && s.contains(w) { let i = choose|i: int| 0 <= i < s.len() && s[i] == w; assert(t[i] == u); }
    }
}
pub trait GraphDataset: Graph {
    // statements of the graph and of the dataset it is used as
    proof fn same_statements(&self)
        ensures forall|t: Triple<&Self::Resource>| #![trigger self.has(t)] self.has(t) == qhas(self, Quad(t.0, t.1, t.2, None))
    {}
//@fn dataset/mod.rs | impl<G: Graph> NamedGraphTraversableDataset for G | named_graphs
//@ bare
//@ ret r
//@ subst `Self::NamedGraphs<'_>` => `Empty<&'_ Self::Resource>`
//@ subst? `std::iter::empty` => `empty`
//@ spec ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.3 == Some(x))
//@end
//@fn dataset/mod.rs | impl<G: Graph> NamedGraphTraversableDataset for G | named_graph_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.3 == Some(x))
//@ proof first_or_none::<&Self::Resource>();
//@end
}
pub trait TraversableGraphDataset: TraversableGraph + GraphDataset {
//@fn dataset/mod.rs | impl<G: TraversableGraph> TraversableDataset for G | quads
//@ bare
//@ ret r
//@ subst `Self::Quads<'_>` => `TripleToQuadIterator<Self::Triples<'_>, &'_ Self::Resource>`
//@ spec ensures lists(r.rest(), |u: Quad<&Self::Resource>| qhas(self, u))
//@ proof default_graph::<&Self::Resource, Self::Triples<'_>>();
//@end
//@fn dataset/mod.rs | impl<G: TraversableGraph> TraversableDataset for G | quads_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |u: Quad<&Self::Resource>| qhas(self, u))
//@ proof assert forall|s: Seq<Quad<&Self::Resource>>, p: spec_fn(Quad<&Self::Resource>) -> bool| #[trigger] lists(s, p) && (forall|u: Quad<&Self::Resource>| #[trigger] p(u) == qhas(self, u)) implies lists(s.map_values(|u: Quad<&Self::Resource>| Triple(u.0, u.1, u.2)), |u: Triple<&Self::Resource>| self.has(u)) by { self.drop_default(s, p); }
//@end
    proof fn drop_default(&self, s: Seq<Quad<&Self::Resource>>, p: spec_fn(Quad<&Self::Resource>) -> bool)
        requires lists(s, p), forall|u: Quad<&Self::Resource>| #[trigger] p(u) == qhas(self, u)
        ensures lists(s.map_values(|u: Quad<&Self::Resource>| Triple(u.0, u.1, u.2)), |u: Triple<&Self::Resource>| self.has(u))
    {
        let f = |u: Quad<&Self::Resource>| Triple(u.0, u.1, u.2);
        let q = |u: Triple<&Self::Resource>| self.has(u);
        assert forall|b: Triple<&Self::Resource>| #[trigger] q(b) implies exists|a: Quad<&Self::Resource>| p(a) && #[trigger] f(a) == b by {
            let a = Quad(b.0, b.1, b.2, None::<&Self::Resource>);
            assert(p(a) == qhas(self, a)); assert(f(a) == b);
        }
        lists_map(s, p, f, q);
    }
}
pub trait ResourceTraversableGraphDataset: ResourceTraversableGraph + GraphDataset {
//@fn dataset/mod.rs | impl<G: ResourceTraversableGraph> ResourceTraversableDataset for G | resources
//@ bare
//@ ret r
//@ subst `Self::Resources<'_>` => `Self::GraphResources<'_>`
//@ spec ensures lists(r.rest(), |x: &Self::Resource| (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.0 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.1 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.2 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.3 == Some(x)))
//@ proof self.same_statements();
//@end
//@fn dataset/mod.rs | impl<G: ResourceTraversableGraph> ResourceTraversableDataset for G | resource_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.0 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.1 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.2 == x) || (exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.3 == Some(x)))
//@ proof self.same_statements();
//@end
}
pub trait SubjectTraversableGraphDataset: SubjectTraversableGraph + GraphDataset {
//@fn dataset/mod.rs | impl<G: SubjectTraversableGraph> SubjectTraversableDataset for G | subjects
//@ bare
//@ ret r
//@ subst `Self::Subjects<'_>` => `Self::GraphSubjects<'_>`
//@ spec ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.0 == x)
//@ proof self.same_statements();
//@end
//@fn dataset/mod.rs | impl<G: SubjectTraversableGraph> SubjectTraversableDataset for G | subject_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.0 == x)
//@ proof self.same_statements();
//@end
}
pub trait PredicateTraversableGraphDataset: PredicateTraversableGraph + GraphDataset {
//@fn dataset/mod.rs | impl<G: PredicateTraversableGraph> PredicateTraversableDataset for G | predicates
//@ bare
//@ ret r
//@ subst `Self::Predicates<'_>` => `Self::GraphPredicates<'_>`
//@ spec ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.1 == x)
//@ proof self.same_statements();
//@end
//@fn dataset/mod.rs | impl<G: PredicateTraversableGraph> PredicateTraversableDataset for G | predicate_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.1 == x)
//@ proof self.same_statements();
//@end
}
pub trait ObjectTraversableGraphDataset: ObjectTraversableGraph + GraphDataset {
//@fn dataset/mod.rs | impl<G: ObjectTraversableGraph> ObjectTraversableDataset for G | objects
//@ bare
//@ ret r
//@ subst `Self::Objects<'_>` => `Self::GraphObjects<'_>`
//@ spec ensures lists(r.rest(), |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.2 == x)
//@ proof self.same_statements();
//@end
//@fn dataset/mod.rs | impl<G: ObjectTraversableGraph> ObjectTraversableDataset for G | object_count
//@ bare
//@ ret r
//@ spec ensures counts(r, |x: &Self::Resource| exists|u: Quad<&Self::Resource>| #[trigger] qhas(self, u) && u.2 == x)
//@ proof self.same_statements();
//@end
}
pub trait PatternMatchingGraphDataset: PatternMatchingGraph + GraphDataset {
//@fn dataset/mod.rs | impl<G: PatternMatchingGraph> PatternMatchingDataset for G | quad_pattern_matching
//@ bare
//@ ret r
//@ subst `Self::QuadPatternMatching<'_, 'p>` => `OptionIterator<TripleToQuadIterator<Self::TriplePatternMatching<'_, 'p>, &'_ Self::Resource>>`
//@ subst? `PatternGraph` => `quad::canonical::PatternGraph`
//@ spec ensures r.rest().no_duplicates(), forall|u: Quad<&Self::Resource>| #[trigger] r.rest().contains(u) == (qhas(self, u) && quad::canonical::sat($1, u))
//@ proof default_graph::<&Self::Resource, Self::TriplePatternMatching<'_, 'p>>();
//@end
}
// ---- objects of: what is left after one step
pub proof fn objects_step<U, O>(s: Seq<U>, f: spec_fn(U) -> O, first: Option<O>)
    ensures s.len() > 0 ==> s.map_values(f).skip(1) =~= s.skip(1).map_values(f) && s.map_values(f)[0] == f(s[0]),
        first is Some ==> (seq![first->0] + s.map_values(f)).skip(1) =~= s.map_values(f)
{}
pub open spec fn keep<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> Seq<A> decreases s.len() {
    if s.len() == 0 { s } else if p(s[0]) { seq![s[0]] + keep(s.skip(1), p) } else { keep(s.skip(1), p) }
}
pub proof fn keep_step<A>(s: Seq<A>, p: spec_fn(A) -> bool)
    ensures s.len() > 0 && p(s[0]) ==> keep(s, p).len() > 0 && keep(s, p)[0] == s[0] && keep(s, p).skip(1) == keep(s.skip(1), p)
{ if s.len() > 0 && p(s[0]) { assert(keep(s, p).skip(1) =~= keep(s.skip(1), p)); } }
pub proof fn keep_steps<A>()
    ensures forall|s: Seq<A>, p: spec_fn(A) -> bool| #![trigger keep(s, p)] s.len() > 0 && p(s[0]) ==> keep(s, p).len() > 0 && keep(s, p)[0] == s[0] && keep(s, p).skip(1) == keep(s.skip(1), p)
{ assert forall|s: Seq<A>, p: spec_fn(A) -> bool| #![trigger keep(s, p)] s.len() > 0 && p(s[0]) implies keep(s, p).len() > 0 && keep(s, p)[0] == s[0] && keep(s, p).skip(1) == keep(s.skip(1), p) by { keep_step(s, p); } }
pub proof fn keep_alls<A>()
    ensures forall|s: Seq<A>, p: spec_fn(A) -> bool, a: A| #[trigger] keep(s, p).contains(a) == (s.contains(a) && p(a)), forall|s: Seq<A>, p: spec_fn(A) -> bool| #![trigger keep(s, p)] s.no_duplicates() ==> keep(s, p).no_duplicates()
{
    assert forall|s: Seq<A>, p: spec_fn(A) -> bool, a: A| #[trigger] keep(s, p).contains(a) == (s.contains(a) && p(a)) by { keep_all(s, p); }
    assert forall|s: Seq<A>, p: spec_fn(A) -> bool| #![trigger keep(s, p)] s.no_duplicates() implies keep(s, p).no_duplicates() by { keep_all(s, p); }
}
pub proof fn keep_all<A>(s: Seq<A>, p: spec_fn(A) -> bool)
    ensures forall|a: A| #[trigger] keep(s, p).contains(a) == (s.contains(a) && p(a)), s.no_duplicates() ==> keep(s, p).no_duplicates()
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1); let k = keep(t, p);
        keep_all(t, p);
        assert(s =~= seq![s[0]] + t);
        assert forall|a: A| #[trigger] s.contains(a) == (a == s[0] || t.contains(a)) by {
            if s.contains(a) && a != s[0] { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(t[i - 1] == a); }
            if t.contains(a) { let i = choose|i: int| 0 <= i < t.len() && t[i] == a; assert(s[i + 1] == a); }
        }
        if p(s[0]) {
            let r = seq![s[0]] + k;
            assert forall|a: A| #[trigger] r.contains(a) == (a == s[0] || k.contains(a)) by {
                if r.contains(a) && a != s[0] { let i = choose|i: int| 0 <= i < r.len() && r[i] == a; assert(k[i - 1] == a); }
                if k.contains(a) { let i = choose|i: int| 0 <= i < k.len() && k[i] == a; assert(r[i + 1] == a); }
                assert(r[0] == s[0]);
            }
            if s.no_duplicates() {
                if t.contains(s[0]) { let i = choose|i: int| 0 <= i < t.len() && t[i] == s[0]; assert(s[i + 1] == s[0]); }
                assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i + 1] != s[j + 1]); }
                assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
                    if i == 0 { assert(k.contains(k[j - 1])); } else if j == 0 { assert(k.contains(k[i - 1])); } else { assert(k[i - 1] != k[j - 1]); }
                }
            }
        } else if s.no_duplicates() {
            assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i + 1] != s[j + 1]); }
        }
    }
}
// ---- objects of a subject and predicate; predicates of a subject, with their objects (triples)
//@item dataset/graph/mod.rs | TripleObjects
impl<'a, 'p, D: 'a + ?Sized + PatternMatchingGraph> TripleObjects<'a, 'p, D> where D::Resource: 'p {
    pub open spec fn rest(&self) -> Seq<&'a D::Resource> {
        let t = self.inner.rest().map_values(|u: Triple<&'a D::Resource>| u.2);
        match self.first { Some(o) => seq![o] + t, None => t }
    }
    // lists the o such that (s, p, o) is in d
    pub open spec fn objects(&self, d: &D, s: &D::Resource, p: &D::Resource) -> bool {
        self.rest().no_duplicates() && forall|o: &D::Resource| #![trigger self.rest().contains(o)] self.rest().contains(o) == d.has(Triple(s, p, o))
    }
//@fn dataset/graph/mod.rs | impl<'a, 'p, D: 'a + ?Sized + PatternMatchingGraph> Iterator for TripleObjects<'a, 'p, D> where D::Resource: 'p, | next
//@ ret r
//@ subst `Self::Item` => `&'a D::Resource`
//@ eta
//@ inline *
//@ spec ensures step(old(self).rest(), final(self).rest(), r)
//@ proof objects_step::<Triple<&'a D::Resource>, &'a D::Resource>(self.inner.rest(), |u: Triple<&'a D::Resource>| u.2, self.first);
//@end
}
pub proof fn triple_objects<R>()
    ensures forall|q: Seq<Triple<R>>| #![trigger q.no_duplicates()] q.no_duplicates() && (forall|u: Triple<R>| #[trigger] q.contains(u) ==> u.0 == q[0].0 && u.1 == q[0].1) ==> ({
        let t = q.map_values(|u: Triple<R>| u.2);
        &&& t.no_duplicates() && (forall|o: R| #![trigger t.contains(o)] #![trigger q.contains(Triple(q[0].0, q[0].1, o))] t.contains(o) == (q.len() > 0 && q.contains(Triple(q[0].0, q[0].1, o))))
        &&& q.len() > 0 ==> t == seq![q[0].2] + q.skip(1).map_values(|u: Triple<R>| u.2)
    })
{
    let f = |u: Triple<R>| u.2;
    assert forall|q: Seq<Triple<R>>| #![trigger q.no_duplicates()] q.no_duplicates() && (forall|u: Triple<R>| #[trigger] q.contains(u) ==> u.0 == q[0].0 && u.1 == q[0].1) implies ({
        let t = q.map_values(f);
        &&& t.no_duplicates() && (forall|o: R| #![trigger t.contains(o)] #![trigger q.contains(Triple(q[0].0, q[0].1, o))] t.contains(o) == (q.len() > 0 && q.contains(Triple(q[0].0, q[0].1, o))))
        &&& q.len() > 0 ==> t == seq![q[0].2] + q.skip(1).map_values(f)
    }) by {
        let t = q.map_values(f);
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(q.contains(q[i]) && q.contains(q[j])); assert(q[i] != q[j]); }
        assert forall|o: R| #![trigger t.contains(o)] t.contains(o) == (q.len() > 0 && q.contains(Triple(q[0].0, q[0].1, o))) by {
            let u = Triple(q[0].0, q[0].1, o);
            if t.contains(o) { let i = choose|i: int| 0 <= i < t.len() && t[i] == o; assert(q.contains(q[i])); assert(q[i] == u); }
            if q.len() > 0 && q.contains(u) { let i = choose|i: int| 0 <= i < q.len() && q[i] == u; assert(t[i] == o); }
        }
        if q.len() > 0 { assert(t =~= seq![q[0].2] + q.skip(1).map_values(f)); }
    }
}
//@item dataset/graph/mod.rs | TriplePredicatesObjects
impl<'a: 'p, 'p, G: 'a + ?Sized + PredicateTraversableGraph + PatternMatchingGraph> TriplePredicatesObjects<'a, 'p, G> where G::Resource: 'p {
    // the predicates left that have an object
    pub open spec fn rest(&self) -> Seq<&'a G::Resource> {
        keep(self.predicates.rest(), |p: &G::Resource| exists|o: &G::Resource| #[trigger] self.graph.has(Triple(self.subject, p, o)))
    }
//@fn dataset/graph/mod.rs | impl<'a: 'p, 'p, G: 'a + ?Sized + PredicateTraversableGraph + PatternMatchingGraph> Iterator for TriplePredicatesObjects<'a, 'p, G> where G::Resource: 'p, | next
//@ ret r
//@ subst `Self::Item` => `(&'a G::Resource, TripleObjects<'p, 'p, G>)`
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loop 0 invariant self.rest() == old(self).rest(), self.subject == old(self).subject, self.graph == old(self).graph
//@ spec ensures step(old(self).rest(), final(self).rest(), match r { Some(x) => Some(x.0), None => None }),
//@|    r is Some ==> (r->0).1.rest().len() > 0 && (r->0).1.objects(final(self).graph, final(self).subject, (r->0).0),
//@|    final(self).subject == old(self).subject, final(self).graph == old(self).graph
//@ proof triple_objects::<&G::Resource>(); first_or_none::<Triple<&G::Resource>>(); keep_steps::<&G::Resource>();
//@end
}
pub trait TripleObjectsOf: PatternMatchingGraph {
//@fn dataset/graph/mod.rs | trait PatternMatchingGraph : Graph | triple_objects
//@ bare
//@ ret r
//@ spec ensures r.objects(self, $1, $2)
//@ proof triple_objects::<&Self::Resource>(); first_or_none::<Triple<&Self::Resource>>();
//@end
//@fn dataset/graph/mod.rs | trait PatternMatchingGraph : Graph | triple_predicates_objects
//@ bare
//@ ret r
//@ spec ensures r.graph == self, r.subject == $1, lists(r.rest(), |p: &Self::Resource| exists|o: &Self::Resource| #[trigger] self.has(Triple($1, p, o)))
//@ proof keep_alls::<&Self::Resource>();
//@end
}
// ---- objects of a subject and predicate; predicates of a subject, with their objects (quads)
//@item dataset/mod.rs | QuadObjects
impl<'a, 'p, D: 'a + ?Sized + PatternMatchingDataset> QuadObjects<'a, 'p, D> where D::Resource: 'p {
    pub open spec fn rest(&self) -> Seq<&'a D::Resource> {
        let t = self.inner.rest().map_values(|u: Quad<&'a D::Resource>| u.2);
        match self.first { Some(o) => seq![o] + t, None => t }
    }
    // lists the o such that (s, p, o, g) is in d
    pub open spec fn objects(&self, d: &D, s: &D::Resource, p: &D::Resource, g: Option<&D::Resource>) -> bool {
        self.rest().no_duplicates() && forall|o: &D::Resource| #![trigger self.rest().contains(o)] self.rest().contains(o) == d.has(Quad(s, p, o, g))
    }
//@fn dataset/mod.rs | impl<'a, 'p, D: 'a + ?Sized + PatternMatchingDataset> Iterator for QuadObjects<'a, 'p, D> where D::Resource: 'p, | next
//@ ret r
//@ subst `Self::Item` => `&'a D::Resource`
//@ eta
//@ inline *
//@ spec ensures step(old(self).rest(), final(self).rest(), r)
//@ proof objects_step::<Quad<&'a D::Resource>, &'a D::Resource>(self.inner.rest(), |u: Quad<&'a D::Resource>| u.2, self.first);
//@end
}
pub proof fn quad_objects<R>()
    ensures forall|q: Seq<Quad<R>>| #![trigger q.no_duplicates()] q.no_duplicates() && (forall|u: Quad<R>| #[trigger] q.contains(u) ==> u.0 == q[0].0 && u.1 == q[0].1 && u.3 == q[0].3) ==> ({
        let t = q.map_values(|u: Quad<R>| u.2);
        &&& t.no_duplicates() && (forall|o: R| #![trigger t.contains(o)] #![trigger q.contains(Quad(q[0].0, q[0].1, o, q[0].3))] t.contains(o) == (q.len() > 0 && q.contains(Quad(q[0].0, q[0].1, o, q[0].3))))
        &&& q.len() > 0 ==> t == seq![q[0].2] + q.skip(1).map_values(|u: Quad<R>| u.2)
    })
{
    let f = |u: Quad<R>| u.2;
    assert forall|q: Seq<Quad<R>>| #![trigger q.no_duplicates()] q.no_duplicates() && (forall|u: Quad<R>| #[trigger] q.contains(u) ==> u.0 == q[0].0 && u.1 == q[0].1 && u.3 == q[0].3) implies ({
        let t = q.map_values(f);
        &&& t.no_duplicates() && (forall|o: R| #![trigger t.contains(o)] #![trigger q.contains(Quad(q[0].0, q[0].1, o, q[0].3))] t.contains(o) == (q.len() > 0 && q.contains(Quad(q[0].0, q[0].1, o, q[0].3))))
        &&& q.len() > 0 ==> t == seq![q[0].2] + q.skip(1).map_values(f)
    }) by {
        let t = q.map_values(f);
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(q.contains(q[i]) && q.contains(q[j])); assert(q[i] != q[j]); }
        assert forall|o: R| #![trigger t.contains(o)] t.contains(o) == (q.len() > 0 && q.contains(Quad(q[0].0, q[0].1, o, q[0].3))) by {
            let u = Quad(q[0].0, q[0].1, o, q[0].3);
            if t.contains(o) { let i = choose|i: int| 0 <= i < t.len() && t[i] == o; assert(q.contains(q[i])); assert(q[i] == u); }
            if q.len() > 0 && q.contains(u) { let i = choose|i: int| 0 <= i < q.len() && q[i] == u; assert(t[i] == o); }
        }
        if q.len() > 0 { assert(t =~= seq![q[0].2] + q.skip(1).map_values(f)); }
    }
}
//@item dataset/mod.rs | QuadPredicatesObjects
impl<'a: 'p, 'p, D: 'a + ?Sized + PredicateTraversableDataset + PatternMatchingDataset> QuadPredicatesObjects<'a, 'p, D> where D::Resource: 'p {
    // the predicates left that have an object
    pub open spec fn rest(&self) -> Seq<&'a D::Resource> {
        keep(self.predicates.rest(), |p: &D::Resource| exists|o: &D::Resource| #[trigger] self.dataset.has(Quad(self.subject, p, o, self.graph)))
    }
//@fn dataset/mod.rs | impl<'a: 'p, 'p, D: 'a + ?Sized + PredicateTraversableDataset + PatternMatchingDataset> Iterator for QuadPredicatesObjects<'a, 'p, D> where D::Resource: 'p, | next
//@ ret r
//@ subst `Self::Item` => `(&'a D::Resource, QuadObjects<'p, 'p, D>)`
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loop 0 invariant self.rest() == old(self).rest(), self.subject == old(self).subject, self.dataset == old(self).dataset, self.graph == old(self).graph
//@ spec ensures step(old(self).rest(), final(self).rest(), match r { Some(x) => Some(x.0), None => None }),
//@|    r is Some ==> (r->0).1.rest().len() > 0 && (r->0).1.objects(final(self).dataset, final(self).subject, (r->0).0, final(self).graph),
//@|    final(self).subject == old(self).subject, final(self).dataset == old(self).dataset, final(self).graph == old(self).graph
//@ proof quad_objects::<&D::Resource>(); first_or_none::<Quad<&D::Resource>>(); keep_steps::<&D::Resource>();
//@end
}
pub trait QuadObjectsOf: PatternMatchingDataset {
//@fn dataset/mod.rs | trait PatternMatchingDataset : Dataset | quad_objects
//@ bare
//@ ret r
//@ spec ensures r.objects(self, $2, $3, $1)
//@ proof quad_objects::<&Self::Resource>(); first_or_none::<Quad<&Self::Resource>>();
//@end
//@fn dataset/mod.rs | trait PatternMatchingDataset : Dataset | quad_predicates_objects
//@ bare
//@ ret r
//@ spec ensures r.dataset == self, r.subject == $2, r.graph == $1, lists(r.rest(), |p: &Self::Resource| exists|o: &Self::Resource| #[trigger] self.has(Quad($2, p, o, $1)))
//@ proof keep_alls::<&Self::Resource>();
//@end
}
// ---- fallible: what an error-capable iterator answers. Its Ok items satisfy p, each once; if no item is an error they are all
pub open spec fn answers<A, E>(s: Seq<Result<A, E>>, p: spec_fn(A) -> bool) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && s[i] is Ok ==> s[i] != s[j]
    &&& forall|i: int| 0 <= i < s.len() && #[trigger] s[i] is Ok ==> p(s[i]->Ok_0)
    &&& (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Ok) ==> forall|a: A| p(a) ==> s.contains(Ok(#[trigger] id(a)))
}
pub open spec fn id<A>(a: A) -> A { a }
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub proof fn answered<I: Iterator>()
    ensures forall|it: InfallibleIterator<I>| #![trigger it.rest()] (forall|i: int| 0 <= i < it.rest().len() ==> #[trigger] it.rest()[i] is Ok),
        forall|it: InfallibleIterator<I>, p: spec_fn(I::Item) -> bool| #[trigger] lists(it.0.rest(), p) ==> answers(it.rest(), p)
{
    assert forall|it: InfallibleIterator<I>, p: spec_fn(I::Item) -> bool| #[trigger] lists(it.0.rest(), p) implies answers(it.rest(), p) by {
        let s = it.0.rest(); let t = it.rest();
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j && t[i] is Ok implies t[i] != t[j] by { assert(s[i] != s[j]); }
        assert forall|i: int| 0 <= i < t.len() && #[trigger] t[i] is Ok implies p(t[i]->Ok_0) by { assert(s.contains(s[i])); }
        assert forall|a: I::Item| p(a) implies t.contains(Ok(#[trigger] id(a))) by { assert(s.contains(a)); let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(t[i] == Ok::<I::Item, Infallible>(a)); }
    }
}
pub trait FallibleGraph { type Resource; type Error; spec fn has(&self, u: Triple<&Self::Resource>) -> bool; }
pub trait FallibleTraversableGraph: FallibleGraph {
    type TryTriples<'a>: Iterator<Item = Result<Triple<&'a Self::Resource>, Self::Error>> where Self: 'a;
    fn try_triples(&self) -> (r: Self::TryTriples<'_>) ensures answers(r.rest(), |u: Triple<&Self::Resource>| self.has(u));
}
pub trait FalliblePatternMatchingGraph: FallibleGraph {
    type TryTriplePatternMatching<'a, 'p>: Iterator<Item = Result<Triple<&'a Self::Resource>, Self::Error>> where Self: 'a, Self::Resource: 'p;
    fn try_triple_pattern_matching<'p>(&self, pattern: CanonicalTriplePattern<&'p Self::Resource>) -> (r: Self::TryTriplePatternMatching<'_, 'p>)
        ensures answers(r.rest(), |u: Triple<&Self::Resource>| self.has(u) && triple::canonical::sat(pattern, u));
//@fn dataset/graph/fallible.rs | trait FalliblePatternMatchingGraph : FallibleGraph | try_contains_triple
//@ bare
//@ ret r
//@ spec ensures r is Ok ==> r->Ok_0 == (self.has($1))
//@ proof assert forall|u: Triple<&Self::Resource>| #[trigger] self.has(u) implies id(u) == u by {}
//@end
}
// an infallible graph used as a fallible one (the blanket implementations)
pub trait InfallibleGraph: TraversableGraph + PatternMatchingGraph {
//@fn dataset/graph/fallible.rs | impl<D: TraversableGraph> FallibleTraversableGraph for D | try_triples
//@ bare
//@ ret r
//@ subst `Self::TryTriples<'_>` => `InfallibleIterator<Self::Triples<'_>>`
//@ spec ensures answers(r.rest(), |u: Triple<&Self::Resource>| self.has(u)), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] is Ok
//@ proof answered::<Self::Triples<'_>>();
//@end
//@fn dataset/graph/fallible.rs | impl<D: PatternMatchingGraph> FalliblePatternMatchingGraph for D | try_triple_pattern_matching
//@ bare
//@ ret r
//@ subst `Self::TryTriplePatternMatching<'_, 'p>` => `InfallibleIterator<Self::TriplePatternMatching<'_, 'p>>`
//@ spec ensures answers(r.rest(), |u: Triple<&Self::Resource>| self.has(u) && triple::canonical::sat($1, u)), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] is Ok
//@ proof answered::<Self::TriplePatternMatching<'_, 'p>>(); assert forall|s: Seq<Triple<&Self::Resource>>| #![trigger s.no_duplicates()] s.no_duplicates() && (forall|u: Triple<&Self::Resource>| s.contains(u) == (self.has(u) && triple::canonical::sat($1, u))) implies lists(s, |u: Triple<&Self::Resource>| self.has(u) && triple::canonical::sat($1, u)) by {}
//@end
}
pub trait GraphMut: Graph {
    fn insert(&mut self, triple: Triple<Self::Resource>) ensures forall|u: Triple<&Self::Resource>| #[trigger] final(self).has(u) == (old(self).has(u) || u == Triple(&triple.0, &triple.1, &triple.2));
    fn remove(&mut self, triple: Triple<&Self::Resource>) ensures forall|u: Triple<&Self::Resource>| #[trigger] final(self).has(u) == (old(self).has(u) && u != triple);
}
pub trait InfallibleGraphMut: GraphMut {
//@fn dataset/graph/fallible.rs | impl<D: GraphMut> FallibleGraphMut for D | try_insert
//@ bare
//@ ret r
//@ subst? `Self::Error` => `Infallible`
//@ spec ensures r is Ok, forall|u: Triple<&Self::Resource>| #[trigger] final(self).has(u) == (old(self).has(u) || u == Triple(&$1.0, &$1.1, &$1.2))
//@end
}
pub trait FallibleDataset { type Resource; type Error; spec fn has(&self, u: Quad<&Self::Resource>) -> bool; }
pub trait FallibleTraversableDataset: FallibleDataset {
    type TryQuads<'a>: Iterator<Item = Result<Quad<&'a Self::Resource>, Self::Error>> where Self: 'a;
    fn try_quads(&self) -> (r: Self::TryQuads<'_>) ensures answers(r.rest(), |u: Quad<&Self::Resource>| self.has(u));
}
pub trait FalliblePatternMatchingDataset: FallibleDataset {
    type TryQuadPatternMatching<'a, 'p>: Iterator<Item = Result<Quad<&'a Self::Resource>, Self::Error>> where Self: 'a, Self::Resource: 'p;
    fn try_quad_pattern_matching<'p>(&self, pattern: CanonicalQuadPattern<&'p Self::Resource>) -> (r: Self::TryQuadPatternMatching<'_, 'p>)
        ensures answers(r.rest(), |u: Quad<&Self::Resource>| self.has(u) && quad::canonical::sat(pattern, u));
//@fn dataset/fallible.rs | trait FalliblePatternMatchingDataset : FallibleDataset | try_contains_triple
//@ bare
//@ ret r
//@ spec ensures r is Ok ==> r->Ok_0 == (exists|u: Quad<&Self::Resource>| #[trigger] self.has(u) && u.0 == $1.0 && u.1 == $1.1 && u.2 == $1.2)
//@ proof assert forall|u: Quad<&Self::Resource>| #[trigger] self.has(u) implies id(u) == u by {}
//@end
}
// an infallible dataset used as a fallible one (the blanket implementations)
pub trait InfallibleDataset: TraversableDataset + PatternMatchingDataset {
//@fn dataset/fallible.rs | impl<D: TraversableDataset> FallibleTraversableDataset for D | try_quads
//@ bare
//@ ret r
//@ subst `Self::TryQuads<'_>` => `InfallibleIterator<Self::Quads<'_>>`
//@ spec ensures answers(r.rest(), |u: Quad<&Self::Resource>| self.has(u)), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] is Ok
//@ proof answered::<Self::Quads<'_>>();
//@end
//@fn dataset/fallible.rs | impl<D: PatternMatchingDataset> FalliblePatternMatchingDataset for D | try_quad_pattern_matching
//@ bare
//@ ret r
//@ subst `Self::TryQuadPatternMatching<'_, 'p>` => `InfallibleIterator<Self::QuadPatternMatching<'_, 'p>>`
//@ spec ensures answers(r.rest(), |u: Quad<&Self::Resource>| self.has(u) && quad::canonical::sat($1, u)), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] is Ok
//@ proof answered::<Self::QuadPatternMatching<'_, 'p>>(); assert forall|s: Seq<Quad<&Self::Resource>>| #![trigger s.no_duplicates()] s.no_duplicates() && (forall|u: Quad<&Self::Resource>| s.contains(u) == (self.has(u) && quad::canonical::sat($1, u))) implies lists(s, |u: Quad<&Self::Resource>| self.has(u) && quad::canonical::sat($1, u)) by {}
//@end
}
pub trait DatasetMut: Dataset {
    fn insert(&mut self, quad: Quad<Self::Resource>) ensures forall|u: Quad<&Self::Resource>| #[trigger] final(self).has(u) == (old(self).has(u) || u == Quad(&quad.0, &quad.1, &quad.2, match quad.3 { Some(g) => Some(&g), None => None }));
    fn remove(&mut self, quad: Quad<&Self::Resource>) ensures forall|u: Quad<&Self::Resource>| #[trigger] final(self).has(u) == (old(self).has(u) && u != quad);
}
pub trait InfallibleDatasetMut: DatasetMut {
//@fn dataset/fallible.rs | impl<D: DatasetMut> FallibleDatasetMut for D | try_insert
//@ bare
//@ ret r
//@ subst? `Self::Error` => `Infallible`
//@ spec ensures r is Ok, forall|u: Quad<&Self::Resource>| #[trigger] final(self).has(u) == (old(self).has(u) || u == Quad(&$1.0, &$1.1, &$1.2, match $1.3 { Some(g) => Some(&g), None => None }))
//@end
}
