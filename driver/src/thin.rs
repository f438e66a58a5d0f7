//! Stores written here that implement only the required items of the store traits, so that every provided method,
//! blanket implementation and adapter of the crate runs (the crate's own stores replace some of them), and stores
//! whose queries fail, so that errors pass through the error-capable traits.
use crate::canon::{sat_q, sat_t};
use crate::ctx::{Check, Ctx};
use crate::stores::{Pat, Q};
use crate::{ensure, ensure_eq};
use rdf_types::dataset::fallible::{FallibleDatasetMut, FalliblePatternMatchingDataset, FallibleTraversableDataset};
use rdf_types::dataset::fallible_graph::{FallibleGraphMut, FalliblePatternMatchingGraph, FallibleTraversableGraph};
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};
use std::collections::{BTreeMap, BTreeSet};
use std::vec::IntoIter;

fn distinct<'a>(v: impl Iterator<Item = &'a u8>) -> IntoIter<&'a u8> {
	let mut r: Vec<&u8> = Vec::new();
	for x in v {
		if !r.contains(&x) {
			r.push(x);
		}
	}
	r.into_iter()
}

pub struct Gr(pub Vec<Triple<u8>>);
impl Graph for Gr {
	type Resource = u8;
}
impl TraversableGraph for Gr {
	type Triples<'a> = IntoIter<Triple<&'a u8>>;
	fn triples(&self) -> Self::Triples<'_> {
		self.0.iter().map(|t| Triple(&t.0, &t.1, &t.2)).collect::<Vec<_>>().into_iter()
	}
}
impl ResourceTraversableGraph for Gr {
	type GraphResources<'a> = IntoIter<&'a u8>;
	fn graph_resources(&self) -> Self::GraphResources<'_> {
		distinct(self.0.iter().flat_map(|t| [&t.0, &t.1, &t.2]))
	}
}
impl SubjectTraversableGraph for Gr {
	type GraphSubjects<'a> = IntoIter<&'a u8>;
	fn graph_subjects(&self) -> Self::GraphSubjects<'_> {
		distinct(self.0.iter().map(|t| &t.0))
	}
}
impl PredicateTraversableGraph for Gr {
	type GraphPredicates<'a> = IntoIter<&'a u8>;
	fn graph_predicates(&self) -> Self::GraphPredicates<'_> {
		distinct(self.0.iter().map(|t| &t.1))
	}
}
impl ObjectTraversableGraph for Gr {
	type GraphObjects<'a> = IntoIter<&'a u8>;
	fn graph_objects(&self) -> Self::GraphObjects<'_> {
		distinct(self.0.iter().map(|t| &t.2))
	}
}
impl PatternMatchingGraph for Gr {
	type TriplePatternMatching<'a, 'p> = IntoIter<Triple<&'a u8>>;
	fn triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p u8>) -> Self::TriplePatternMatching<'_, 'p> {
		self.0.iter().map(|t| Triple(&t.0, &t.1, &t.2)).filter(|t| sat_t(&p, t.0, t.1, t.2)).collect::<Vec<_>>().into_iter()
	}
}
impl GraphMut for Gr {
	fn insert(&mut self, t: Triple<u8>) {
		if !self.0.contains(&t) {
			self.0.push(t)
		}
	}
	fn remove(&mut self, t: Triple<&u8>) {
		self.0.retain(|u| (&u.0, &u.1, &u.2) != (t.0, t.1, t.2))
	}
}

pub struct Ds(pub Vec<Quad<u8>>);
fn quad(q: &Quad<u8>) -> Quad<&u8> {
	Quad(&q.0, &q.1, &q.2, q.3.as_ref())
}
impl Dataset for Ds {
	type Resource = u8;
}
impl TraversableDataset for Ds {
	type Quads<'a> = IntoIter<Quad<&'a u8>>;
	fn quads(&self) -> Self::Quads<'_> {
		self.0.iter().map(quad).collect::<Vec<_>>().into_iter()
	}
}
impl ResourceTraversableDataset for Ds {
	type Resources<'a> = IntoIter<&'a u8>;
	fn resources(&self) -> Self::Resources<'_> {
		distinct(self.0.iter().flat_map(|t| [Some(&t.0), Some(&t.1), Some(&t.2), t.3.as_ref()]).flatten())
	}
}
impl SubjectTraversableDataset for Ds {
	type Subjects<'a> = IntoIter<&'a u8>;
	fn subjects(&self) -> Self::Subjects<'_> {
		distinct(self.0.iter().map(|t| &t.0))
	}
}
impl PredicateTraversableDataset for Ds {
	type Predicates<'a> = IntoIter<&'a u8>;
	fn predicates(&self) -> Self::Predicates<'_> {
		distinct(self.0.iter().map(|t| &t.1))
	}
}
impl ObjectTraversableDataset for Ds {
	type Objects<'a> = IntoIter<&'a u8>;
	fn objects(&self) -> Self::Objects<'_> {
		distinct(self.0.iter().map(|t| &t.2))
	}
}
impl NamedGraphTraversableDataset for Ds {
	type NamedGraphs<'a> = IntoIter<&'a u8>;
	fn named_graphs(&self) -> Self::NamedGraphs<'_> {
		distinct(self.0.iter().filter_map(|t| t.3.as_ref()))
	}
}
impl PatternMatchingDataset for Ds {
	type QuadPatternMatching<'a, 'p> = IntoIter<Quad<&'a u8>>;
	fn quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p u8>) -> Self::QuadPatternMatching<'_, 'p> {
		self.0.iter().map(quad).filter(|q| sat_q(&p, q.0, q.1, q.2, q.3)).collect::<Vec<_>>().into_iter()
	}
}
impl DatasetMut for Ds {
	fn insert(&mut self, q: Quad<u8>) {
		if !self.0.contains(&q) {
			self.0.push(q)
		}
	}
	fn remove(&mut self, q: Quad<&u8>) {
		self.0.retain(|u| quad(u) != q)
	}
}

/// Every query fails once it has given `.1` statements.
pub struct BadG<'x>(&'x Gr, usize);
pub struct BadD<'x>(&'x Ds, usize);
fn fails<T>(v: impl Iterator<Item = T>, n: usize) -> IntoIter<Result<T, u32>> {
	v.take(n).map(Ok).chain(std::iter::once(Err(77))).collect::<Vec<_>>().into_iter()
}
impl fallible_graph::FallibleGraph for BadG<'_> {
	type Resource = u8;
	type Error = u32;
}
impl FalliblePatternMatchingGraph for BadG<'_> {
	type TryTriplePatternMatching<'a, 'p> = IntoIter<Result<Triple<&'a u8>, u32>> where Self: 'a;
	fn try_triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p u8>) -> Self::TryTriplePatternMatching<'_, 'p> {
		fails(self.0.triple_pattern_matching(p), self.1)
	}
}
impl fallible::FallibleDataset for BadD<'_> {
	type Resource = u8;
	type Error = u32;
}
impl FalliblePatternMatchingDataset for BadD<'_> {
	type TryQuadPatternMatching<'a, 'p> = IntoIter<Result<Quad<&'a u8>, u32>> where Self: 'a;
	fn try_quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p u8>) -> Self::TryQuadPatternMatching<'_, 'p> {
		fails(self.0.quad_pattern_matching(p), self.1)
	}
}

fn listed(i: impl Iterator<Item = u8>, what: &str) -> Result<BTreeSet<u8>, String> {
	let v: Vec<u8> = i.collect();
	let s: BTreeSet<u8> = v.iter().copied().collect();
	ensure!(s.len() == v.len(), "{what}: listed twice: {v:?}");
	Ok(s)
}
fn same(got: Vec<Q>, want: Vec<Q>, what: &str) -> Check {
	let (mut g, mut w) = (got, want);
	g.sort();
	w.sort();
	ensure_eq!(g, w, "{what}");
	Ok(())
}
fn un(q: Quad<&u8>) -> Q {
	(*q.0, *q.1, *q.2, q.3.copied())
}

/// The dataset interface of `x`, whose statements are `m`, on resources up to `n`.
fn dataset<D>(x: &D, m: &[Q], n: u8, pats: &[Pat]) -> Check
where
	D: Dataset<Resource = u8> + TraversableDataset + ResourceTraversableDataset + SubjectTraversableDataset + PredicateTraversableDataset,
	D: ObjectTraversableDataset + NamedGraphTraversableDataset + PatternMatchingDataset,
{
	same(x.quads().map(un).collect(), m.to_vec(), "quads")?;
	ensure_eq!(x.quads_count(), m.len(), "quads_count");
	same(x.try_quads().map(|r| un(r.unwrap())).collect(), m.to_vec(), "try_quads")?;
	let all = |f: &dyn Fn(&Q) -> Vec<u8>| m.iter().flat_map(f).collect::<BTreeSet<u8>>();
	macro_rules! listing {
		($f:ident, $c:ident, $w:expr) => {{
			let w = all(&$w);
			ensure_eq!(listed(x.$f().copied(), stringify!($f))?, w, stringify!($f));
			ensure_eq!(x.$c(), w.len(), stringify!($c));
		}};
	}
	listing!(resources, resource_count, |q: &Q| [Some(q.0), Some(q.1), Some(q.2), q.3].into_iter().flatten().collect());
	listing!(subjects, subject_count, |q: &Q| vec![q.0]);
	listing!(predicates, predicate_count, |q: &Q| vec![q.1]);
	listing!(objects, object_count, |q: &Q| vec![q.2]);
	listing!(named_graphs, named_graph_count, |q: &Q| q.3.into_iter().collect());
	let gs: Vec<Option<u8>> = std::iter::once(None).chain((0..n).map(Some)).collect();
	for a in 0..n {
		ensure_eq!(x.contains_quad_subject(&a), m.iter().any(|q| q.0 == a), "contains_quad_subject {a}");
		ensure_eq!(x.contains_quad_predicate(&a), m.iter().any(|q| q.1 == a), "contains_quad_predicate {a}");
		ensure_eq!(x.contains_quad_object(&a), m.iter().any(|q| q.2 == a), "contains_quad_object {a}");
		ensure_eq!(x.contains_named_graph(&a), m.iter().any(|q| q.3 == Some(a)), "contains_named_graph {a}");
		for g in &gs {
			let mut po = BTreeMap::new();
			for (p, os) in x.quad_predicates_objects(g.as_ref(), &a) {
				let d = format!("quad_predicates_objects({g:?}, {a}), predicate {p}");
				let os = listed(os.copied(), &d)?;
				ensure!(po.insert(*p, os).is_none(), "{d}: listed twice");
			}
			let mut want: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
			for q in m.iter().filter(|q| q.0 == a && q.3 == *g) {
				want.entry(q.1).or_default().insert(q.2);
			}
			ensure_eq!(po, want, "quad_predicates_objects({g:?}, {a})");
			for b in 0..n {
				let d = format!("quad_objects({g:?}, {a}, {b})");
				let want: BTreeSet<u8> = m.iter().filter(|q| (q.0, q.1, q.3) == (a, b, *g)).map(|q| q.2).collect();
				ensure_eq!(listed(x.quad_objects(g.as_ref(), &a, &b).copied(), &d)?, want, "{d}");
				for c in 0..n {
					ensure_eq!(x.contains_quad(Quad(&a, &b, &c, g.as_ref())), m.contains(&(a, b, c, *g)), "contains_quad {a} {b} {c} {g:?}");
					let any = m.iter().any(|q| (q.0, q.1, q.2) == (a, b, c));
					ensure_eq!(FalliblePatternMatchingDataset::try_contains_triple(x, Triple(&a, &b, &c)), Ok(any), "try_contains_triple {a} {b} {c}");
				}
			}
		}
	}
	let rs: Vec<u8> = (0..=255).collect();
	for p in pats {
		let pat = || p.q(&|i| &rs[i as usize]);
		let want: Vec<Q> = m.iter().copied().filter(|q| p.matches(true, *q)).collect();
		let d = format!("pattern [{}]", crate::stores::show_parts(&p.parts(true)));
		same(x.quad_pattern_matching(pat()).map(un).collect(), want.clone(), &d)?;
		same(x.try_quad_pattern_matching(pat()).map(|r| un(r.unwrap())).collect(), want, &d)?;
	}
	Ok(())
}

fn graph(x: &Gr, m: &[Q], n: u8) -> Check {
	let unt = |t: Triple<&u8>| (*t.0, *t.1, *t.2, None);
	same(x.triples().map(unt).collect(), m.to_vec(), "triples")?;
	ensure_eq!(x.triples_count(), m.len(), "triples_count");
	same(x.try_triples().map(|r| unt(r.unwrap())).collect(), m.to_vec(), "try_triples")?;
	let all = |f: &dyn Fn(&Q) -> Vec<u8>| m.iter().flat_map(f).collect::<BTreeSet<u8>>().len();
	ensure_eq!(x.graph_resource_count(), all(&|q| vec![q.0, q.1, q.2]), "graph_resource_count");
	ensure_eq!(x.graph_subject_count(), all(&|q| vec![q.0]), "graph_subject_count");
	ensure_eq!(x.graph_predicate_count(), all(&|q| vec![q.1]), "graph_predicate_count");
	ensure_eq!(x.graph_object_count(), all(&|q| vec![q.2]), "graph_object_count");
	for a in 0..n {
		ensure_eq!(x.contains_triple_subject(&a), m.iter().any(|q| q.0 == a), "contains_triple_subject {a}");
		ensure_eq!(x.contains_triple_predicate(&a), m.iter().any(|q| q.1 == a), "contains_triple_predicate {a}");
		ensure_eq!(x.contains_triple_object(&a), m.iter().any(|q| q.2 == a), "contains_triple_object {a}");
		let mut po = BTreeMap::new();
		for (p, os) in x.triple_predicates_objects(&a) {
			let d = format!("triple_predicates_objects({a}), predicate {p}");
			let os = listed(os.copied(), &d)?;
			ensure!(po.insert(*p, os).is_none(), "{d}: listed twice");
		}
		let mut want: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
		for q in m.iter().filter(|q| q.0 == a) {
			want.entry(q.1).or_default().insert(q.2);
		}
		ensure_eq!(po, want, "triple_predicates_objects({a})");
		for b in 0..n {
			let d = format!("triple_objects({a}, {b})");
			let want: BTreeSet<u8> = m.iter().filter(|q| (q.0, q.1) == (a, b)).map(|q| q.2).collect();
			ensure_eq!(listed(x.triple_objects(&a, &b).copied(), &d)?, want, "{d}");
			for c in 0..n {
				let w = m.contains(&(a, b, c, None));
				ensure_eq!(x.contains_triple(Triple(&a, &b, &c)), w, "contains_triple {a} {b} {c}");
				ensure_eq!(FalliblePatternMatchingGraph::try_contains_triple(x, Triple(&a, &b, &c)), Ok(w), "try_contains_triple {a} {b} {c}");
				// the first answer decides: a statement, or the error
				for k in 0..2 {
					let want = if w && k > 0 { Ok(true) } else { Err(77) };
					ensure_eq!(BadG(x, k).try_contains_triple(Triple(&a, &b, &c)), want, "try_contains_triple {a} {b} {c} with an error after {k}");
				}
			}
		}
	}
	Ok(())
}

fn case(hist: &[(bool, Q)], n: u8, pats: &[Pat]) -> Check {
	// a set of quads, and as a graph its triples
	let (mut d, mut g) = (Ds(vec![]), Gr(vec![]));
	let (mut m, mut t): (Vec<Q>, Vec<Q>) = (vec![], vec![]);
	for (ins, q) in hist {
		let k = Quad(q.0, q.1, q.2, q.3);
		let l = (q.0, q.1, q.2, None);
		if *ins {
			FallibleDatasetMut::try_insert(&mut d, k).unwrap();
			FallibleGraphMut::try_insert(&mut g, Triple(q.0, q.1, q.2)).unwrap();
			if !m.contains(q) {
				m.push(*q);
			}
			if !t.contains(&l) {
				t.push(l);
			}
		} else {
			DatasetMut::remove(&mut d, quad(&k));
			GraphMut::remove(&mut g, Triple(&q.0, &q.1, &q.2));
			m.retain(|x| x != q);
			t.retain(|x| *x != l);
		}
	}
	dataset(&d, &m, n, pats).map_err(|e| format!("dataset: {e}"))?;
	graph(&g, &t, n).map_err(|e| format!("graph: {e}"))?;
	dataset(&g, &t, n, pats).map_err(|e| format!("graph as dataset: {e}"))?;
	for a in 0..n {
		for b in 0..n {
			for k in 0..2 {
				let any = m.iter().any(|q| (q.0, q.1, q.2) == (a, b, a));
				let want = if any && k > 0 { Ok(true) } else { Err(77) };
				ensure_eq!(BadD(&d, k).try_contains_triple(Triple(&a, &b, &a)), want, "try_contains_triple {a} {b} {a} with an error after {k}");
			}
		}
	}
	Ok(())
}

pub fn run(c: &mut Ctx) {
	let k = c.n(1500, 15000);
	for _ in 0..k {
		if c.out_of_time() {
			break;
		}
		let n = 1 + c.rng.below(3) as u8;
		let mut r = |c: &mut Ctx| c.rng.below(n as usize) as u8;
		let len = c.rng.below(10);
		let hist: Vec<(bool, Q)> = (0..len)
			.map(|_| {
				let g = if c.rng.chance(1, 2) { None } else { Some(r(c)) };
				(c.rng.chance(4, 5), (r(c), r(c), r(c), g))
			})
			.collect();
		let pats: Vec<Pat> = (0..6).map(|_| Pat::random(&mut c.rng, true, n + 1)).collect();
		c.case((&hist, n), &|| format!("stores implementing only required methods, after {hist:?}, patterns {:?}", pats.iter().map(|p| crate::stores::show_parts(&p.parts(true))).collect::<Vec<_>>()), || case(&hist, n + 1, &pats));
	}
	c.scope(format!("{k} random stores that implement only the required items of the store traits, and ones whose queries fail"));
}
