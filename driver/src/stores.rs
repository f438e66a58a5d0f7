//! Operations on the four stores and observations compared with a plain set.
use crate::canon::{gen_q, gen_t, Choose, Cn};
use crate::ctx::{Check, Rng};
use crate::{ensure, ensure_eq};
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// A statement over resource numbers; graph statements have graph `None`.
pub type Q = (u8, u8, u8, Option<u8>);
pub type Model = BTreeSet<Q>;

pub trait Res: Ord + Clone + Debug + Hash + RdfDisplay + 'static {
	fn mk(i: u8) -> Self;
	fn id(&self) -> u8;
}

/// Resource ordered otherwise than by its number, to separate order by value from
/// order by slot or creation.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Num(pub u8);

impl Num {
	fn key(&self) -> u8 {
		self.0.wrapping_mul(167).wrapping_add(77)
	}
}
impl PartialOrd for Num {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Num {
	fn cmp(&self, o: &Self) -> Ordering {
		self.key().cmp(&o.key())
	}
}
impl RdfDisplay for Num {
	fn rdf_fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "n{}", self.0)
	}
}
impl Res for Num {
	fn mk(i: u8) -> Self {
		Num(i)
	}
	fn id(&self) -> u8 {
		self.0
	}
}

impl Res for LocalTerm {
	fn mk(i: u8) -> Self {
		match i % 4 {
			0 => LocalTerm::iri(IriBuf::new(format!("http://example.org/{i}")).unwrap()),
			1 => LocalTerm::Anonymous(BlankIdBuf::from_suffix(&format!("b{i}")).unwrap()),
			2 => LocalTerm::literal(Literal::new(format!("l{i}"), rdf_types::LiteralType::Any(XSD_STRING.to_owned()))),
			_ => LocalTerm::literal(Literal::new(
				format!("l{}", i - 1),
				rdf_types::LiteralType::Any(IriBuf::new("http://example.org/t".to_owned()).unwrap()),
			)),
		}
	}
	fn id(&self) -> u8 {
		for i in 0..=255u8 {
			if &Self::mk(i) == self {
				return i;
			}
		}
		panic!("unknown resource {self:?}")
	}
}

pub enum AnyStore<R> {
	G(BTreeGraph<R>),
	IG(IndexedBTreeGraph<R>),
	D(BTreeDataset<R>),
	ID(IndexedBTreeDataset<R>),
}
use AnyStore::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
	G,
	IG,
	D,
	ID,
}

impl Kind {
	pub fn is_graph(self) -> bool {
		matches!(self, Kind::G | Kind::IG)
	}
}

pub fn mkq<R: Res>(q: Q) -> Quad<R> {
	Quad(R::mk(q.0), R::mk(q.1), R::mk(q.2), q.3.map(R::mk))
}
pub fn mkt<R: Res>(q: Q) -> Triple<R> {
	Triple(R::mk(q.0), R::mk(q.1), R::mk(q.2))
}
pub fn unq<R: Res>(q: Quad<&R>) -> Q {
	(q.0.id(), q.1.id(), q.2.id(), q.3.map(|g| g.id()))
}
pub fn unt<R: Res>(q: Triple<&R>) -> Q {
	(q.0.id(), q.1.id(), q.2.id(), None)
}
fn rq<R>(q: &Quad<R>) -> Quad<&R> {
	Quad(&q.0, &q.1, &q.2, q.3.as_ref())
}
fn rt<R>(q: &Triple<R>) -> Triple<&R> {
	Triple(&q.0, &q.1, &q.2)
}

/// A canonical pattern as the choices made to build it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pat {
	pub picks: Vec<u8>,
	pub res: Vec<u8>,
}

struct Rec<'a> {
	p: Pat,
	f: &'a mut dyn FnMut(u8) -> u8,
	g: &'a mut dyn FnMut() -> u8,
}
impl Choose<u8> for Rec<'_> {
	fn pick(&mut self, n: u8) -> u8 {
		let v = (self.f)(n);
		self.p.picks.push(v);
		v
	}
	fn res(&mut self) -> u8 {
		let v = (self.g)();
		self.p.res.push(v);
		v
	}
}
struct Replay<'a, T> {
	p: &'a Pat,
	i: usize,
	j: usize,
	f: &'a dyn Fn(u8) -> T,
}
impl<T> Choose<T> for Replay<'_, T> {
	fn pick(&mut self, _: u8) -> u8 {
		self.i += 1;
		self.p.picks[self.i - 1]
	}
	fn res(&mut self) -> T {
		self.j += 1;
		(self.f)(self.p.res[self.j - 1])
	}
}

impl Pat {
	/// Random pattern over resources `0..n` (quad pattern, or triple pattern).
	pub fn random(rng: &mut Rng, quad: bool, n: u8) -> Pat {
		let r = std::cell::RefCell::new(rng);
		let mut f = |k: u8| r.borrow_mut().below(k as usize) as u8;
		let mut g = || r.borrow_mut().below(n as usize) as u8;
		let mut rec = Rec {
			p: Pat {
				picks: vec![],
				res: vec![],
			},
			f: &mut f,
			g: &mut g,
		};
		if quad {
			gen_q(&mut rec);
		} else {
			gen_t(&mut rec);
		}
		rec.p
	}

	/// All patterns over resources `0..n`.
	pub fn all(quad: bool, n: u8) -> Vec<Pat> {
		let mut out = Vec::new();
		let mut script: Vec<(u8, u8)> = Vec::new();
		loop {
			let pos = std::cell::Cell::new(0usize);
			let sc = std::cell::RefCell::new(std::mem::take(&mut script));
			let step = |k: u8| {
				let i = pos.get();
				pos.set(i + 1);
				let mut s = sc.borrow_mut();
				if i < s.len() {
					s[i].0
				} else {
					s.push((0, k));
					0
				}
			};
			let mut f = |k: u8| step(k);
			let mut g = || step(n);
			let mut rec = Rec {
				p: Pat {
					picks: vec![],
					res: vec![],
				},
				f: &mut f,
				g: &mut g,
			};
			if quad {
				gen_q(&mut rec);
			} else {
				gen_t(&mut rec);
			}
			out.push(rec.p);
			script = sc.into_inner();
			loop {
				match script.last_mut() {
					None => return out,
					Some(l) => {
						if l.0 + 1 < l.1 {
							l.0 += 1;
							break;
						}
						script.pop();
					}
				}
			}
		}
	}

	pub fn q<T>(&self, f: &dyn Fn(u8) -> T) -> CanonicalQuadPattern<T> {
		gen_q(&mut Replay {
			p: self,
			i: 0,
			j: 0,
			f,
		})
	}
	pub fn t<T>(&self, f: &dyn Fn(u8) -> T) -> CanonicalTriplePattern<T> {
		gen_t(&mut Replay {
			p: self,
			i: 0,
			j: 0,
			f,
		})
	}
	pub fn parts(&self, quad: bool) -> Vec<Cn<u8>> {
		if quad {
			crate::canon::parts_q(&self.q(&|x| x)).to_vec()
		} else {
			crate::canon::parts_t(&self.t(&|x| x)).to_vec()
		}
	}
	pub fn matches(&self, quad: bool, q: Q) -> bool {
		crate::canon::sat(&self.parts(quad), q.0, q.1, q.2, q.3)
	}
}

pub fn show_parts(c: &[Cn<u8>]) -> String {
	c.iter()
		.map(|c| match c {
			Cn::Any => "*".to_owned(),
			Cn::Same(j) => format!("={}", ["s", "p", "o", "g"][*j as usize]),
			Cn::Is(x) => format!("r{x}"),
			Cn::Default => "default".to_owned(),
		})
		.collect::<Vec<_>>()
		.join(" ")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Ins(Q),
	Rem(Q),
	Ext(Vec<Q>),
	Collect(Vec<Q>),
	Idx,
	RmG(Option<u8>),
	/// Extraction, abandoned after that many yielded quads (run to the end if `None`).
	Extr(Pat, Option<usize>),
	Clone_,
	/// Insertion and removal through the generic mutation traits.
	TIns(Q),
	TRem(Q),
}

pub struct St<R: Res> {
	pub s: AnyStore<R>,
	pub m: Model,
}

macro_rules! on {
	($s:expr, $x:ident => $e:expr) => {
		match $s {
			G($x) => $e,
			IG($x) => $e,
			D($x) => $e,
			ID($x) => $e,
		}
	};
}

pub fn content<R: Res>(s: &AnyStore<R>) -> Vec<Q> {
	match s {
		G(g) => g.iter().map(unt).collect(),
		IG(g) => g.iter().map(unt).collect(),
		D(d) => d.iter().map(unq).collect(),
		ID(d) => d.iter().map(unq).collect(),
	}
}

impl<R: Res> St<R> {
	pub fn new(k: Kind) -> Self {
		St {
			s: match k {
				Kind::G => G(BTreeGraph::new()),
				Kind::IG => IG(IndexedBTreeGraph::new()),
				Kind::D => D(BTreeDataset::new()),
				Kind::ID => ID(IndexedBTreeDataset::new()),
			},
			m: Model::new(),
		}
	}

	pub fn kind(&self) -> Kind {
		match &self.s {
			G(_) => Kind::G,
			IG(_) => Kind::IG,
			D(_) => Kind::D,
			ID(_) => Kind::ID,
		}
	}

	fn norm(&self, q: Q) -> Q {
		if self.kind().is_graph() {
			(q.0, q.1, q.2, None)
		} else {
			q
		}
	}

	/// Applies one operation to store and model; checks its result.
	pub fn apply(&mut self, op: &Op) -> Check {
		match op {
			Op::Ins(q) => {
				let q = self.norm(*q);
				let new = self.m.insert(q);
				let r = match &mut self.s {
					G(g) => g.insert(mkt(q)),
					IG(g) => g.insert(mkt(q)),
					D(d) => d.insert(mkq(q)),
					ID(d) => d.insert(mkq(q)),
				};
				ensure_eq!(r, new, "result of insert {q:?}");
			}
			Op::Rem(q) => {
				let q = self.norm(*q);
				let old = self.m.remove(&q);
				let (qq, tt) = (mkq::<R>(q), mkt::<R>(q));
				let r = match &mut self.s {
					G(g) => g.remove(rt(&tt)),
					IG(g) => g.remove(rt(&tt)),
					D(d) => d.remove(rq(&qq)),
					ID(d) => d.remove(rq(&qq)),
				};
				ensure_eq!(r, old, "result of remove {q:?}");
			}
			Op::TIns(q) => {
				let q = self.norm(*q);
				self.m.insert(q);
				match &mut self.s {
					G(g) => {
						fallible_graph::FallibleGraphMut::try_insert(g, mkt(q)).unwrap();
					}
					IG(g) => GraphMut::insert(g, mkt(q)),
					D(d) => DatasetMut::insert(d, mkq(q)),
					ID(d) => {
						fallible::FallibleDatasetMut::try_insert(d, mkq(q)).unwrap();
					}
				}
			}
			Op::TRem(q) => {
				let q = self.norm(*q);
				self.m.remove(&q);
				let (qq, tt) = (mkq::<R>(q), mkt::<R>(q));
				match &mut self.s {
					G(g) => GraphMut::remove(g, rt(&tt)),
					IG(g) => GraphMut::remove(g, rt(&tt)),
					D(d) => DatasetMut::remove(d, rq(&qq)),
					ID(d) => DatasetMut::remove(d, rq(&qq)),
				}
			}
			Op::Ext(qs) => {
				let qs: Vec<Q> = qs.iter().map(|q| self.norm(*q)).collect();
				self.m.extend(qs.iter().copied());
				match &mut self.s {
					G(g) => g.extend(qs.iter().map(|q| mkt(*q))),
					IG(g) => g.extend(qs.iter().map(|q| mkt(*q))),
					D(d) => d.extend(qs.iter().map(|q| mkq(*q))),
					ID(d) => d.extend(qs.iter().map(|q| mkq(*q))),
				}
			}
			Op::Collect(qs) => {
				let qs: Vec<Q> = qs.iter().map(|q| self.norm(*q)).collect();
				self.m = qs.iter().copied().collect();
				match &mut self.s {
					G(g) => *g = qs.iter().map(|q| mkt(*q)).collect(),
					IG(g) => *g = qs.iter().map(|q| mkt(*q)).collect(),
					D(d) => *d = qs.iter().map(|q| mkq(*q)).collect(),
					ID(d) => *d = qs.iter().map(|q| mkq(*q)).collect(),
				}
			}
			Op::Idx => {
				let k = self.kind();
				let old = std::mem::replace(&mut self.s, G(BTreeGraph::new()));
				let _ = k;
				self.s = match old {
					G(g) => IG(g.into_indexed()),
					D(d) => ID(d.into_indexed()),
					IG(g) => IG(g),
					ID(d) => ID(d),
				};
			}
			Op::Clone_ => {
				// The original is then emptied: a clone must not notice.
				let c = on!(&self.s, x => AnyStore::from(x.clone()));
				let mut old = std::mem::replace(&mut self.s, c);
				for q in content(&old) {
					let (qq, tt) = (mkq::<R>(q), mkt::<R>(q));
					match &mut old {
						G(g) => g.remove(rt(&tt)),
						IG(g) => g.remove(rt(&tt)),
						D(d) => d.remove(rq(&qq)),
						ID(d) => d.remove(rq(&qq)),
					};
				}
			}
			Op::RmG(g) => {
				if let ID(d) = &mut self.s {
					let taken: Model = self.m.iter().copied().filter(|q| q.3 == *g).collect();
					let gr = g.map(R::mk);
					let r = d.remove_graph(gr.as_ref());
					match (&r, g) {
						(None, None) => return Err("remove_graph(default) returned None".into()),
						(None, Some(_)) => {
							ensure!(taken.is_empty(), "remove_graph({g:?}) returned None but the graph has {} quads", taken.len())
						}
						(Some(_), Some(_)) if taken.is_empty() => {
							return Err(format!("remove_graph({g:?}) returned a graph though there is none"))
						}
						(Some(gr), _) => {
							let st = St {
								s: G(gr.clone()),
								m: taken.iter().map(|q| (q.0, q.1, q.2, None)).collect(),
							};
							obs_set(&st, &[]).map_err(|e| format!("graph returned by remove_graph({g:?}): {e}"))?;
							obs_enum(&st).map_err(|e| format!("graph returned by remove_graph({g:?}): {e}"))?;
						}
					}
					self.m.retain(|q| q.3 != *g);
				}
			}
			Op::Extr(p, steps) => {
				if let ID(d) = &mut self.s {
					let rs: Vec<R> = (0..=255u8).map(R::mk).collect();
					let matching: Model =
						self.m.iter().copied().filter(|q| p.matches(true, *q)).collect();
					let mut got = Vec::new();
					{
						let mut it = d.extract_pattern_matching(p.q(&|i| &rs[i as usize]));
						loop {
							if let Some(k) = steps {
								if got.len() >= *k {
									break;
								}
							}
							match it.next() {
								Some(q) => got.push(unq(rq(&q))),
								None => break,
							}
							ensure!(got.len() <= matching.len(), "extraction of [{}] yields more quads than match: {got:?}", show_parts(&p.parts(true)));
						}
					}
					let set: Model = got.iter().copied().collect();
					ensure_eq!(set.len(), got.len(), "extraction yields a quad twice: {got:?}; distinct");
					ensure!(set.is_subset(&matching), "extraction of [{}] yields non matching quads {:?}", show_parts(&p.parts(true)), set.difference(&matching).collect::<Vec<_>>());
					match steps {
						Some(k) if *k < matching.len() => {
							ensure_eq!(got.len(), *k, "extraction of [{}] ended early", show_parts(&p.parts(true)))
						}
						_ => ensure_eq!(set, matching, "extraction of [{}]", show_parts(&p.parts(true))),
					}
					for q in set {
						self.m.remove(&q);
					}
				}
			}
		}
		Ok(())
	}
}

impl<R> From<BTreeGraph<R>> for AnyStore<R> {
	fn from(x: BTreeGraph<R>) -> Self {
		G(x)
	}
}
impl<R> From<IndexedBTreeGraph<R>> for AnyStore<R> {
	fn from(x: IndexedBTreeGraph<R>) -> Self {
		IG(x)
	}
}
impl<R> From<BTreeDataset<R>> for AnyStore<R> {
	fn from(x: BTreeDataset<R>) -> Self {
		D(x)
	}
}
impl<R> From<IndexedBTreeDataset<R>> for AnyStore<R> {
	fn from(x: IndexedBTreeDataset<R>) -> Self {
		ID(x)
	}
}

pub fn as_set(v: &[Q], what: &str) -> Result<Model, String> {
	let s: Model = v.iter().copied().collect();
	ensure!(s.len() == v.len(), "{what} yields a statement twice: {v:?}");
	Ok(s)
}

/// C01/C02: content, length, emptiness, membership, iteration.
pub fn obs_set<R: Res>(st: &St<R>, probe: &[Q]) -> Check {
	let m = &st.m;
	let (len, empty) = on!(&st.s, x => (x.len(), x.is_empty()));
	ensure_eq!(len, m.len(), "len");
	ensure_eq!(empty, m.is_empty(), "is_empty");
	ensure_eq!(&as_set(&content(&st.s), "iter")?, m, "iter");
	let byref: Vec<Q> = match &st.s {
		G(g) => g.into_iter().map(unt).collect(),
		IG(g) => g.into_iter().map(unt).collect(),
		D(g) => g.into_iter().map(unq).collect(),
		ID(g) => g.into_iter().map(unq).collect(),
	};
	ensure_eq!(&as_set(&byref, "borrowed into_iter")?, m, "borrowed into_iter");
	let owned: Vec<Q> = match &st.s {
		G(g) => g.clone().into_iter().map(|t| unt(rt(&t))).collect(),
		IG(g) => g.clone().into_iter().map(|t| unt(rt(&t))).collect(),
		D(g) => g.clone().into_iter().map(|t| unq(rq(&t))).collect(),
		ID(g) => g.clone().into_iter().map(|t| unq(rq(&t))).collect(),
	};
	ensure_eq!(&as_set(&owned, "into_iter")?, m, "into_iter");
	for q in m.iter().chain(probe) {
		let q = st.norm(*q);
		ensure_eq!(contains(&st.s, q), m.contains(&q), "contains {q:?}");
	}
	Ok(())
}

pub fn contains<R: Res>(s: &AnyStore<R>, q: Q) -> bool {
	let (qq, tt) = (mkq::<R>(q), mkt::<R>(q));
	match s {
		G(g) => g.contains(rt(&tt)),
		IG(g) => g.contains(rt(&tt)),
		D(d) => d.contains(rq(&qq)),
		ID(d) => d.contains(rq(&qq)),
	}
}

fn terms<'a, R: Res>(it: impl Iterator<Item = &'a R>, what: &str) -> Result<BTreeSet<u8>, String> {
	let v: Vec<u8> = it.map(|r| r.id()).collect();
	let s: BTreeSet<u8> = v.iter().copied().collect();
	ensure!(s.len() == v.len(), "{what} lists a term twice: {v:?}");
	Ok(s)
}

/// C03: term enumerations and counts.
pub fn obs_enum<R: Res>(st: &St<R>) -> Check {
	let m = &st.m;
	let (mut s, mut p, mut o, mut g) =
		(BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
	for q in m {
		s.insert(q.0);
		p.insert(q.1);
		o.insert(q.2);
		g.extend(q.3);
	}
	let all: BTreeSet<u8> = s.iter().chain(&p).chain(&o).chain(&g).copied().collect();
	ensure_eq!(on!(&st.s, x => terms(x.resources(), "resources")?), all, "resources");
	for i in 0..=12u8 {
		ensure_eq!(on!(&st.s, x => x.contains_resource(&R::mk(i))), all.contains(&i), "contains_resource {i}");
	}
	match &st.s {
		G(x) => {
			ensure_eq!(terms(x.graph_resources(), "graph_resources")?, all, "graph_resources");
			ensure_eq!(x.graph_resource_count(), all.len(), "graph_resource_count");
		}
		IG(x) => {
			ensure_eq!(terms(x.subjects(), "subjects")?, s, "subjects");
			ensure_eq!(terms(x.predicates(), "predicates")?, p, "predicates");
			ensure_eq!(terms(x.objects(), "objects")?, o, "objects");
			ensure_eq!(terms(x.graph_resources(), "graph_resources")?, all, "graph_resources");
			ensure_eq!(terms(x.graph_subjects(), "graph_subjects")?, s, "graph_subjects");
			ensure_eq!(terms(x.graph_predicates(), "graph_predicates")?, p, "graph_predicates");
			ensure_eq!(terms(x.graph_objects(), "graph_objects")?, o, "graph_objects");
			ensure_eq!(x.graph_resource_count(), all.len(), "graph_resource_count");
			ensure_eq!(x.graph_subject_count(), s.len(), "graph_subject_count");
			ensure_eq!(x.graph_predicate_count(), p.len(), "graph_predicate_count");
			ensure_eq!(x.graph_object_count(), o.len(), "graph_object_count");
		}
		D(x) => {
			ensure_eq!(terms(ResourceTraversableDataset::resources(x), "resources")?, all, "resources");
			ensure_eq!(x.resource_count(), all.len(), "resource_count");
		}
		ID(x) => {
			ensure_eq!(terms(x.subjects(), "subjects")?, s, "subjects");
			ensure_eq!(terms(x.predicates(), "predicates")?, p, "predicates");
			ensure_eq!(terms(x.objects(), "objects")?, o, "objects");
			ensure_eq!(terms(x.named_graphs(), "named_graphs")?, g, "named_graphs");
			ensure_eq!(terms(ResourceTraversableDataset::resources(x), "resources")?, all, "trait resources");
			ensure_eq!(terms(SubjectTraversableDataset::subjects(x), "subjects")?, s, "trait subjects");
			ensure_eq!(terms(PredicateTraversableDataset::predicates(x), "predicates")?, p, "trait predicates");
			ensure_eq!(terms(ObjectTraversableDataset::objects(x), "objects")?, o, "trait objects");
			ensure_eq!(terms(NamedGraphTraversableDataset::named_graphs(x), "named_graphs")?, g, "trait named_graphs");
			ensure_eq!(x.resource_count(), all.len(), "resource_count");
			ensure_eq!(x.subject_count(), s.len(), "subject_count");
			ensure_eq!(x.predicate_count(), p.len(), "predicate_count");
			ensure_eq!(x.object_count(), o.len(), "object_count");
			ensure_eq!(x.named_graph_count(), g.len(), "named_graph_count");
		}
	}
	Ok(())
}

fn qcmp<R: Res>(a: &Q, b: &Q) -> Ordering {
	let k = |q: &Q| (R::mk(q.0), R::mk(q.1), R::mk(q.2), q.3.map(R::mk));
	k(a).cmp(&k(b))
}

pub fn sorted<R: Res>(m: &Model) -> Vec<Q> {
	let mut v: Vec<Q> = m.iter().copied().collect();
	v.sort_by(qcmp::<R>);
	v
}

/// C04: order of iteration.
pub fn obs_sorted<R: Res>(st: &St<R>) -> Check {
	ensure_eq!(content(&st.s), sorted::<R>(&st.m), "iteration order");
	let owned: Vec<Q> = match &st.s {
		G(g) => g.clone().into_iter().map(|t| unt(rt(&t))).collect(),
		IG(g) => g.clone().into_iter().map(|t| unt(rt(&t))).collect(),
		D(g) => g.clone().into_iter().map(|t| unq(rq(&t))).collect(),
		ID(g) => g.clone().into_iter().map(|t| unq(rq(&t))).collect(),
	};
	ensure_eq!(owned, sorted::<R>(&st.m), "order of consuming iteration");
	let lines: Vec<String> = on!(&st.s, x => x.rdf_display().to_string())
		.lines()
		.map(str::to_owned)
		.collect();
	ensure_eq!(lines.len(), st.m.len(), "displayed lines");
	Ok(())
}

fn h<T: Hash>(t: &T) -> u64 {
	let mut s = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut s);
	s.finish()
}

fn cmp_all<T: Ord + Hash>(a: &T, b: &T, eq: bool, ord: Ordering) -> Check {
	ensure_eq!(a == b, eq, "a == b");
	ensure_eq!(b == a, eq, "b == a");
	ensure_eq!(a.cmp(b), ord, "a.cmp(b)");
	ensure_eq!(b.cmp(a), ord.reverse(), "b.cmp(a)");
	ensure_eq!(a.partial_cmp(b), Some(ord), "a.partial_cmp(b)");
	if eq {
		ensure_eq!(h(a), h(b), "hash of equal stores");
	}
	Ok(())
}

/// C04: equality, order and hash of two stores of one kind.
pub fn obs_pair<R: Res>(a: &St<R>, b: &St<R>) -> Check {
	let (x, y) = (sorted::<R>(&a.m), sorted::<R>(&b.m));
	let ord = {
		let mut r = x.len().cmp(&y.len());
		for (p, q) in x.iter().zip(&y) {
			let c = qcmp::<R>(p, q);
			if c != Ordering::Equal {
				r = c;
				break;
			}
		}
		r
	};
	let eq = a.m == b.m;
	match (&a.s, &b.s) {
		(G(a), G(b)) => cmp_all(a, b, eq, ord),
		(IG(a), IG(b)) => cmp_all(a, b, eq, ord),
		(D(a), D(b)) => cmp_all(a, b, eq, ord),
		(ID(a), ID(b)) => cmp_all(a, b, eq, ord),
		_ => Ok(()),
	}
}

pub fn obs_clone<R: Res>(st: &St<R>) -> Check {
	match &st.s {
		G(a) => cmp_all(a, &a.clone(), true, Ordering::Equal),
		IG(a) => cmp_all(a, &a.clone(), true, Ordering::Equal),
		D(a) => cmp_all(a, &a.clone(), true, Ordering::Equal),
		ID(a) => cmp_all(a, &a.clone(), true, Ordering::Equal),
	}
}

/// C05: one pattern.
pub fn obs_match<R: Res>(st: &St<R>, p: &Pat, rs: &[R]) -> Check {
	match &st.s {
		IG(g) => {
			let want: Model = st.m.iter().copied().filter(|q| p.matches(false, *q)).collect();
			let pat = || p.t(&|i| &rs[i as usize]);
			let d = || format!("pattern [{}]", show_parts(&p.parts(false)));
			let got: Vec<Q> = g.pattern_matching(pat()).map(unt).collect();
			ensure_eq!(as_set(&got, &d())?, want, "{}", d());
			let got: Vec<Q> = g.triple_pattern_matching(pat()).map(unt).collect();
			ensure_eq!(as_set(&got, &d())?, want, "triple_pattern_matching {}", d());
		}
		ID(g) => {
			let want: Model = st.m.iter().copied().filter(|q| p.matches(true, *q)).collect();
			let pat = || p.q(&|i| &rs[i as usize]);
			let d = || format!("pattern [{}]", show_parts(&p.parts(true)));
			let got: Vec<Q> = g.pattern_matching(pat()).map(unq).collect();
			ensure_eq!(as_set(&got, &d())?, want, "{}", d());
			let got: Vec<Q> = g.quad_pattern_matching(pat()).map(unq).collect();
			ensure_eq!(as_set(&got, &d())?, want, "quad_pattern_matching {}", d());
		}
		_ => {}
	}
	Ok(())
}

/// C06: a pattern whose fixed components are lists of alternatives.
pub fn obs_multi<R: Res>(st: &St<R>, p: &Pat, alts: &[Vec<u8>], rs: &[R]) -> Check {
	if let ID(d) = &st.s {
		// resource k of the pattern stands for the list alts[k].
		let idx = Pat {
			picks: p.picks.clone(),
			res: (0..p.res.len() as u8).collect(),
		};
		let parts = idx.parts(true);
		let ok = |q: &Q| {
			let k = [Some(q.0), Some(q.1), Some(q.2), q.3];
			parts.iter().enumerate().all(|(i, c)| match c {
				Cn::Any => true,
				Cn::Same(j) => k[i] == k[*j as usize],
				Cn::Is(l) => k[i].is_some_and(|x| alts[*l as usize].contains(&x)),
				Cn::Default => k[i].is_none(),
			})
		};
		let want: Model = st.m.iter().copied().filter(ok).collect();
		let pat = || {
			idx.q(&|l| {
				alts[l as usize]
					.iter()
					.map(|i| &rs[*i as usize])
					.collect::<Vec<&R>>()
			})
		};
		let desc = format!("multi pattern [{}] with r<k> = alternatives {:?}", show_parts(&parts), alts);
		let got: Vec<Q> = d.multi_pattern_matching(pat()).map(unq).collect();
		ensure_eq!(as_set(&got, &desc)?, want, "{desc}");
		let got: Vec<Q> = d.quad_multi_pattern_matching(pat()).map(unq).collect();
		ensure_eq!(as_set(&got, &desc)?, want, "{desc} (trait)");
	}
	Ok(())
}

fn map_of(v: Vec<(u8, Vec<u8>)>) -> Result<BTreeMap<u8, BTreeSet<u8>>, String> {
	let mut m = BTreeMap::new();
	for (p, os) in v {
		let s: BTreeSet<u8> = os.iter().copied().collect();
		ensure!(s.len() == os.len(), "an object is listed twice for predicate {p}: {os:?}");
		ensure!(m.insert(p, s).is_none(), "predicate {p} is listed twice");
	}
	Ok(m)
}

/// C10: queries through the generic traits.
pub fn obs_generic<R: Res>(st: &St<R>, alphabet: u8, rs: &[R]) -> Check {
	use fallible::{FalliblePatternMatchingDataset, FallibleTraversableDataset};
	use fallible_graph::{FalliblePatternMatchingGraph, FallibleTraversableGraph};
	let m = &st.m;
	// Traversal.
	macro_rules! traversal_d {
		($x:expr) => {{
			let v: Vec<Q> = TraversableDataset::quads($x).map(unq).collect();
			ensure_eq!(&as_set(&v, "quads")?, m, "quads");
			ensure_eq!(TraversableDataset::quads_count($x), m.len(), "quads_count");
			let v: Vec<Q> = $x.try_quads().map(|r| unq(r.unwrap())).collect();
			ensure_eq!(&as_set(&v, "try_quads")?, m, "try_quads");
		}};
	}
	macro_rules! traversal_g {
		($x:expr) => {{
			let v: Vec<Q> = TraversableGraph::triples($x).map(unt).collect();
			ensure_eq!(&as_set(&v, "triples")?, m, "triples");
			ensure_eq!(TraversableGraph::triples_count($x), m.len(), "triples_count");
			let v: Vec<Q> = $x.try_triples().map(|r| unt(r.unwrap())).collect();
			ensure_eq!(&as_set(&v, "try_triples")?, m, "try_triples");
			ensure_eq!(NamedGraphTraversableDataset::named_graphs($x).count(), 0, "named graphs of a graph");
			ensure_eq!(NamedGraphTraversableDataset::named_graph_count($x), 0, "named graph count of a graph");
			ensure_eq!(
				terms(ResourceTraversableDataset::resources($x), "resources")?,
				terms(ResourceTraversableGraph::graph_resources($x), "resources")?,
				"resources of a graph as dataset"
			);
			ensure_eq!(ResourceTraversableDataset::resource_count($x), ResourceTraversableGraph::graph_resources($x).count(), "resource_count of a graph as dataset");
		}};
	}
	macro_rules! queries_d {
		($x:expr) => {{
			let x = $x;
			let one = |q: &Q| -> Check {
				let qq = mkq::<R>(*q);
				ensure_eq!(PatternMatchingDataset::contains_quad(x, rq(&qq)), m.contains(q), "contains_quad {q:?}");
				if q.3.is_none() {
					let tt = mkt::<R>(*q);
					let any = m.iter().any(|k| (k.0, k.1, k.2) == (q.0, q.1, q.2));
					ensure_eq!(FalliblePatternMatchingDataset::try_contains_triple(x, rt(&tt)).unwrap(), any, "try_contains_triple {q:?}");
				}
				Ok(())
			};
			for q in m {
				one(q)?;
			}
			for a in 0..alphabet {
				let r = &rs[a as usize];
				ensure_eq!(x.contains_quad_subject(r), m.iter().any(|q| q.0 == a), "contains_quad_subject {a}");
				ensure_eq!(x.contains_quad_predicate(r), m.iter().any(|q| q.1 == a), "contains_quad_predicate {a}");
				ensure_eq!(x.contains_quad_object(r), m.iter().any(|q| q.2 == a), "contains_quad_object {a}");
				ensure_eq!(x.contains_named_graph(r), m.iter().any(|q| q.3 == Some(a)), "contains_named_graph {a}");
				for b in 0..alphabet {
					for g in 0..=alphabet {
						let g = if g == alphabet { None } else { Some(g) };
						one(&(a, b, a, g))?;
						one(&(a, b, b, g))?;
						let gr = g.map(|g| &rs[g as usize]);
						let os: Vec<u8> = x.quad_objects(gr, r, &rs[b as usize]).map(|o| o.id()).collect();
						let want: BTreeSet<u8> = m.iter().filter(|q| (q.0, q.1, q.3) == (a, b, g)).map(|q| q.2).collect();
						ensure_eq!(os.len(), want.len(), "quad_objects({g:?}, {a}, {b}) = {os:?}: count");
						ensure_eq!(os.into_iter().collect::<BTreeSet<_>>(), want, "quad_objects({g:?}, {a}, {b})");
					}
				}
				for g in 0..=alphabet {
					let g = if g == alphabet { None } else { Some(g) };
					let gr = g.map(|g| &rs[g as usize]);
					let po: Vec<(u8, Vec<u8>)> = x.quad_predicates_objects(gr, r).map(|(p, os)| (p.id(), os.map(|o| o.id()).collect())).collect();
					let mut want: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
					for q in m.iter().filter(|q| (q.0, q.3) == (a, g)) {
						want.entry(q.1).or_default().insert(q.2);
					}
					ensure_eq!(map_of(po)?, want, "quad_predicates_objects({g:?}, {a})");
				}
			}
		}};
	}
	match &st.s {
		G(x) => {
			traversal_d!(x);
			traversal_g!(x);
		}
		D(x) => traversal_d!(x),
		IG(x) => {
			traversal_d!(x);
			traversal_g!(x);
			queries_d!(x);
			ensure_eq!(terms(SubjectTraversableDataset::subjects(x), "s")?, terms(x.graph_subjects(), "s")?, "subjects of a graph as dataset");
			ensure_eq!(terms(PredicateTraversableDataset::predicates(x), "p")?, terms(x.graph_predicates(), "p")?, "predicates of a graph as dataset");
			ensure_eq!(terms(ObjectTraversableDataset::objects(x), "o")?, terms(x.graph_objects(), "o")?, "objects of a graph as dataset");
			ensure_eq!(x.subject_count(), x.graph_subjects().count(), "subject_count of a graph as dataset");
			ensure_eq!(x.predicate_count(), x.graph_predicates().count(), "predicate_count of a graph as dataset");
			ensure_eq!(x.object_count(), x.graph_objects().count(), "object_count of a graph as dataset");
			for a in 0..alphabet {
				let r = &rs[a as usize];
				ensure_eq!(x.contains_triple_subject(r), m.iter().any(|q| q.0 == a), "contains_triple_subject {a}");
				ensure_eq!(x.contains_triple_predicate(r), m.iter().any(|q| q.1 == a), "contains_triple_predicate {a}");
				ensure_eq!(x.contains_triple_object(r), m.iter().any(|q| q.2 == a), "contains_triple_object {a}");
				for b in 0..alphabet {
					let os: Vec<u8> = x.triple_objects(r, &rs[b as usize]).map(|o| o.id()).collect();
					let want: BTreeSet<u8> = m.iter().filter(|q| (q.0, q.1) == (a, b)).map(|q| q.2).collect();
					ensure_eq!(os.len(), want.len(), "triple_objects({a}, {b}) = {os:?}: count");
					ensure_eq!(os.into_iter().collect::<BTreeSet<_>>(), want, "triple_objects({a}, {b})");
					for c in 0..alphabet {
						let tt = mkt::<R>((a, b, c, None));
						let w = m.contains(&(a, b, c, None));
						ensure_eq!(PatternMatchingGraph::contains_triple(x, rt(&tt)), w, "contains_triple {a} {b} {c}");
						ensure_eq!(FalliblePatternMatchingGraph::try_contains_triple(x, rt(&tt)).unwrap(), w, "try_contains_triple {a} {b} {c}");
					}
				}
				let po: Vec<(u8, Vec<u8>)> = x.triple_predicates_objects(r).map(|(p, os)| (p.id(), os.map(|o| o.id()).collect())).collect();
				let mut want: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
				for q in m.iter().filter(|q| q.0 == a) {
					want.entry(q.1).or_default().insert(q.2);
				}
				ensure_eq!(map_of(po)?, want, "triple_predicates_objects({a})");
			}
		}
		ID(x) => {
			traversal_d!(x);
			queries_d!(x);
		}
	}
	Ok(())
}

/// C10: pattern matching through the generic traits, including graphs as datasets.
pub fn obs_generic_pattern<R: Res>(st: &St<R>, p: &Pat, rs: &[R]) -> Check {
	use fallible::FalliblePatternMatchingDataset;
	use fallible_graph::FalliblePatternMatchingGraph;
	let want: Model = st.m.iter().copied().filter(|q| p.matches(true, *q)).collect();
	let d = format!("pattern [{}]", show_parts(&p.parts(true)));
	let pat = || p.q(&|i| &rs[i as usize]);
	let (a, b): (Vec<Q>, Vec<Q>) = match &st.s {
		IG(x) => (
			x.quad_pattern_matching(pat()).map(unq).collect(),
			x.try_quad_pattern_matching(pat()).map(|r| unq(r.unwrap())).collect(),
		),
		ID(x) => (
			x.quad_pattern_matching(pat()).map(unq).collect(),
			x.try_quad_pattern_matching(pat()).map(|r| unq(r.unwrap())).collect(),
		),
		_ => return Ok(()),
	};
	ensure_eq!(as_set(&a, "quad_pattern_matching")?, want, "quad_pattern_matching {d}");
	ensure_eq!(as_set(&b, "try_quad_pattern_matching")?, want, "try_quad_pattern_matching {d}");
	if let IG(x) = &st.s {
		// The same picks read as a triple pattern, when they suffice.
		let parts = p.parts(true);
		if let [s, pr, o, Cn::Any] = parts[..] {
			let f = |c: Cn<u8>| match c {
				Cn::Is(r) => Some(&rs[r as usize]),
				_ => None,
			};
			if [s, pr, o].iter().all(|c| !matches!(c, Cn::Same(_))) {
				let tp = CanonicalTriplePattern::from_option_triple(Triple(f(s), f(pr), f(o)));
				let v: Vec<Q> = x.try_triple_pattern_matching(tp).map(|r| unt(r.unwrap())).collect();
				ensure_eq!(as_set(&v, "try_triple_pattern_matching")?, want, "try_triple_pattern_matching {d}");
			}
		}
	}
	Ok(())
}
