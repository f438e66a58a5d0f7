//! C20 and C21: blank node isomorphism against a brute-force oracle.
use crate::ctx::*;
use crate::{ensure, ensure_eq};
use rdf_types::dataset::isomorphism::*;
use rdf_types::dataset::{BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph, TraversableDataset};
use rdf_types::interpretation::*;
use rdf_types::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

/// Resources: 0..=9 are blank nodes, 10.. are IRIs, 20.. are literals.
type Q = (u8, u8, u8, Option<u8>);
type D = BTreeSet<Q>;

fn term(n: u8) -> LocalTerm {
	match n {
		0..=9 => LocalTerm::Anonymous(BlankIdBuf::from_u8(n)),
		10..=19 => LocalTerm::iri(IriBuf::new(format!("urn:{n}")).unwrap()),
		// also literals whose text looks like other terms
		20 => LocalTerm::literal(Literal::new("_:0", LiteralType::Any(XSD_STRING.to_owned()))),
		21 => LocalTerm::literal(Literal::new("urn:10", LiteralType::Any(XSD_STRING.to_owned()))),
		22 => LocalTerm::literal(Literal::new("urn:10", LiteralType::Any(RDF_JSON.to_owned()))),
		_ => LocalTerm::literal(Literal::new("urn:10", LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()))),
	}
}
fn num(t: &LocalTerm) -> Result<u8, String> {
	(0..24).find(|&n| term(n) == *t).ok_or_else(|| format!("unknown term {t:?}"))
}
fn quad(q: &Q) -> Quad {
	Quad(term(q.0), term(q.1), term(q.2), q.3.map(term))
}
fn nodes(d: &D) -> BTreeSet<u8> {
	d.iter().flat_map(|q| [Some(q.0), Some(q.1), Some(q.2), q.3]).flatten().filter(|&x| x < 10).collect()
}
fn rename(d: &D, m: &BTreeMap<u8, u8>) -> D {
	let f = |x: u8| if x < 10 { m.get(&x).copied().unwrap_or(99) } else { x };
	d.iter().map(|q| (f(q.0), f(q.1), f(q.2), q.3.map(f))).collect()
}
/// Brute force: is there a bijection?
fn oracle(a: &D, b: &D) -> bool {
	let (na, nb): (Vec<u8>, Vec<u8>) = (nodes(a).into_iter().collect(), nodes(b).into_iter().collect());
	if na.len() != nb.len() || a.len() != b.len() {
		return false;
	}
	fn go(a: &D, b: &D, na: &[u8], nb: &mut Vec<u8>, m: &mut BTreeMap<u8, u8>) -> bool {
		let Some((x, rest)) = na.split_first() else { return rename(a, m) == *b };
		for i in 0..nb.len() {
			let y = nb.remove(i);
			m.insert(*x, y);
			if go(a, b, rest, nb, m) {
				return true;
			}
			nb.insert(i, y);
		}
		false
	}
	go(a, b, &na, &mut nb.clone(), &mut BTreeMap::new())
}

/// Transparent interpretation of the numbers themselves, resources being `u8`.
struct Nums(Vec<LocalTerm>);
impl Interpretation for Nums {
	type Resource = u8;
	fn iri(&self, _: &Iri) -> Option<u8> {
		None
	}
	fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<u8> {
		None
	}
}
impl ReverseInterpretation for Nums {
	type Iris<'a> = std::option::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::option::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u8) -> Self::Iris<'a> {
		self.0[*r as usize].as_iri().map(Cow::Borrowed).into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a u8) -> Self::Literals<'a> {
		self.0[*r as usize].as_literal().map(LiteralRef::into_cow).into_iter()
	}
}

fn check_map(a: &D, b: &D, fwd: Vec<(u8, u8)>, bwd: Vec<(u8, u8)>) -> Check {
	let m: BTreeMap<u8, u8> = fwd.iter().copied().collect();
	let r: BTreeMap<u8, u8> = bwd.iter().copied().collect();
	ensure_eq!(m.keys().copied().collect::<BTreeSet<_>>(), nodes(a), "domain of the bijection");
	ensure_eq!(r.keys().copied().collect::<BTreeSet<_>>(), nodes(b), "range of the bijection");
	ensure_eq!(m.len(), r.len(), "sizes of the two directions");
	for (x, y) in &m {
		ensure_eq!(r.get(y), Some(x), "backward image of {y}");
	}
	ensure_eq!(rename(a, &m), *b, "renamed dataset");
	Ok(())
}
fn terms_of(m: &BTreeMap<&LocalTerm, &LocalTerm>) -> Result<Vec<(u8, u8)>, String> {
	m.iter().map(|(a, b)| Ok((num(a)?, num(b)?))).collect()
}
fn on<A, B>(a: &D, b: &D, da: &A, db: &B, want: bool, sound: bool) -> Check
where
	A: TraversableDataset<Resource = LocalTerm>,
	B: TraversableDataset<Resource = LocalTerm>,
{
	let r = find_bijection(da, db);
	if sound {
		if let Some(s) = &r {
			ensure!(want, "reported isomorphic, and no renaming exists");
			check_map(a, b, terms_of(&s.forward)?, terms_of(&s.backward)?)?;
		}
		ensure!(!are_isomorphic(da, db) || want, "are_isomorphic holds, and no renaming exists");
		ensure!(!are_isomorphic_with(&(), da, db) || want, "are_isomorphic_with holds, and no renaming exists");
	} else {
		ensure!(r.is_some() || !want, "not reported isomorphic, and a renaming exists");
		ensure!(are_isomorphic(da, db) || !want, "are_isomorphic fails, and a renaming exists");
		ensure!(are_isomorphic(db, da) || !want, "are_isomorphic fails with the arguments swapped, and a renaming exists");
		ensure!(find_bijection_with(&(), db, da).is_some() || !want, "find_bijection_with fails, and a renaming exists");
	}
	Ok(())
}
fn check(a: &D, b: &D, want: bool, sound: bool, full: bool) -> Check {
	let da: IndexedBTreeDataset = a.iter().map(quad).collect();
	let db: BTreeDataset = b.iter().rev().map(quad).collect();
	on(a, b, &da, &db, want, sound)?;
	if !full {
		return Ok(());
	}
	on(b, a, &db, &da, want, sound)?;
	let nums = Nums((0..24).map(term).collect());
	let na: BTreeDataset<u8> = a.iter().map(|q| Quad(q.0, q.1, q.2, q.3)).collect();
	let nb: IndexedBTreeDataset<u8> = b.iter().map(|q| Quad(q.0, q.1, q.2, q.3)).collect();
	let r = find_bijection_with(&nums, &na, &nb);
	if sound {
		if let Some(s) = r {
			ensure!(want, "reported isomorphic under an interpretation, and no renaming exists");
			check_map(a, b, s.forward.iter().map(|(a, b)| (**a, **b)).collect(), s.backward.iter().map(|(a, b)| (**a, **b)).collect())?;
		}
	} else {
		ensure!(r.is_some() || !want, "not reported isomorphic under an interpretation, and a renaming exists");
		ensure!(are_isomorphic(&da, &da) && are_isomorphic(&db, &db), "a dataset is not isomorphic to itself");
	}
	if a.iter().chain(b).all(|q| q.3.is_none()) {
		let ga: BTreeGraph = a.iter().map(|q| Triple(term(q.0), term(q.1), term(q.2))).collect();
		let gb: IndexedBTreeGraph = b.iter().map(|q| Triple(term(q.0), term(q.1), term(q.2))).collect();
		on(a, b, &ga, &gb, want, sound)?;
		on(a, b, &ga, &db, want, sound)?;
	}
	Ok(())
}

fn random_quad(c: &mut Ctx, blanks: usize, named: usize, graphs: bool, pred: bool) -> Q {
	let mut r = |p: usize| {
		if c.rng.chance(p, 10) {
			c.rng.below(blanks) as u8
		} else {
			let k = c.rng.below(named.max(1));
			[10, 11, 20, 21, 22, 23][k]
		}
	};
	let (s, p, o, g) = (r(8), r(if pred { 4 } else { 0 }), r(7), r(6));
	(s, p, o, if graphs && c.rng.chance(1, 2) { Some(g) } else { None })
}
fn random_set(c: &mut Ctx) -> D {
	let blanks = 1 + c.rng.below(5);
	let named = 1 + c.rng.below(6);
	let (g, p) = (c.rng.chance(1, 2), c.rng.chance(1, 3));
	let n = c.rng.below(9);
	(0..n).map(|_| random_quad(c, blanks, named, g, p)).collect()
}
fn random_renaming(c: &mut Ctx, d: &D) -> BTreeMap<u8, u8> {
	let ns: Vec<u8> = nodes(d).into_iter().collect();
	let mut ys: Vec<u8> = (0..10).collect();
	ns.into_iter().map(|x| (x, ys.remove(c.rng.below(ys.len())))).collect()
}
/// Symmetric families: cycles, bipartite graphs, disjoint copies.
fn families() -> Vec<D> {
	let mut v: Vec<D> = Vec::new();
	let cyc = |from: u8, n: u8, g: Option<u8>| -> D { (0..n).map(|i| (from + i, 10, from + (i + 1) % n, g)).collect() };
	for n in 1..=8 {
		v.push(cyc(0, n, None));
		v.push(cyc(0, n, Some(9)));
	}
	v.push(cyc(0, 3, None).union(&cyc(3, 3, None)).copied().collect());
	v.push(cyc(0, 4, None).union(&cyc(4, 4, None)).copied().collect());
	v.push(cyc(0, 2, None).union(&cyc(2, 4, None)).copied().collect());
	v.push(cyc(0, 3, None).union(&cyc(3, 3, Some(0))).copied().collect());
	for n in 2..=5u8 {
		v.push((0..n).flat_map(|i| (0..n).filter(move |j| *j != i).map(move |j| (i, 10, j, None))).collect());
		v.push((0..n).map(|i| (i, 10, i, None)).collect());
		v.push((0..n).map(|i| (i, i, i, Some(i))).collect());
		v.push((0..n).map(|i| (11, 10, i, None)).collect());
	}
	// undirected 6-cycle and two triangles: same degrees, not isomorphic
	let und = |e: &[(u8, u8)]| -> D { e.iter().flat_map(|&(a, b)| [(a, 10, b, None), (b, 10, a, None)]).collect() };
	v.push(und(&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)]));
	v.push(und(&[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]));
	// prism and K3,3
	v.push(und(&[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]));
	v.push(und(&[(0, 3), (0, 4), (0, 5), (1, 3), (1, 4), (1, 5), (2, 3), (2, 4), (2, 5)]));
	v
}
fn run(c: &mut Ctx, sound: bool) {
	let show = |a: &D, b: &D| format!("{a:?} against {b:?} (0-9 blank nodes, 10-19 IRIs, 20- literals)");
	// every pair of small datasets over two blank nodes and one IRI
	let mut quads: Vec<Q> = Vec::new();
	for s in [0, 1, 10] {
		for o in [0, 1, 10] {
			for g in [None, Some(0), Some(10)] {
				quads.push((s, 10, o, g));
			}
		}
	}
	let mut small: Vec<D> = vec![D::new()];
	for i in 0..quads.len() {
		small.push([quads[i]].into());
		for j in 0..i {
			small.push([quads[i], quads[j]].into());
		}
	}
	for a in &small {
		for b in &small {
			if a.len() != b.len() {
				continue;
			}
			c.case((a, b), &|| show(a, b), || check(a, b, oracle(a, b), sound, false));
		}
	}
	c.scope("all pairs of equal-sized datasets of up to 2 quads over 2 blank nodes, 1 IRI, default and named graphs");
	let fam = families();
	for a in &fam {
		for b in &fam {
			if a.len() == b.len() {
				c.case((a, b), &|| show(a, b), || check(a, b, oracle(a, b), sound, true));
			}
		}
		for _ in 0..c.n(6, 60) {
			let m = random_renaming(c, a);
			let b = rename(a, &m);
			c.case((a, &b), &|| show(a, &b), || check(a, &b, true, sound, true));
		}
	}
	c.scope("cycles, cliques, loops, disjoint copies and cospectral regular graphs, and their random renamings");
	let n = c.n(40_000, 500_000);
	for i in 0..n {
		if c.out_of_time() {
			break;
		}
		let a = random_set(c);
		let m = random_renaming(c, &a);
		let mut b = rename(&a, &m);
		if i % 2 == 1 {
			// perturb: replace, move or retarget quads so that counts often still agree
			for _ in 0..1 + c.rng.below(2) {
				let Some(q) = b.iter().nth(c.rng.below(b.len())).copied() else { break };
				b.remove(&q);
				let mut q2 = q;
				let pool: Vec<u8> = b.iter().flat_map(|q| [q.0, q.2]).chain([q.0, q.2, 10, 20]).collect();
				let x = *c.rng.pick(&pool);
				match c.rng.below(4) {
					0 => q2.0 = x,
					1 => q2.2 = x,
					2 => q2.1 = x,
					_ => q2.3 = if q2.3.is_none() || c.rng.chance(1, 2) { Some(x) } else { None },
				}
				b.insert(q2);
			}
		}
		c.case((&a, &b), &|| show(&a, &b), || check(&a, &b, oracle(&a, &b), sound, i % 4 < 2));
	}
	c.scope("random datasets of up to 8 quads and 5 blank nodes, renamed and perturbed");
}

// ---- larger datasets: blank nodes below 200, IRIs from 200, literals from 300
type LQ = (u16, u16, u16, Option<u16>);
type LD = BTreeSet<LQ>;
fn lterm(n: u16) -> LocalTerm {
	match n {
		0..=199 => LocalTerm::Anonymous(BlankIdBuf::from_u16(n)),
		200..=299 => LocalTerm::iri(IriBuf::new(format!("urn:{n}")).unwrap()),
		_ => LocalTerm::literal(Literal::new(n.to_string(), LiteralType::Any(XSD_STRING.to_owned()))),
	}
}
fn lquad(q: &LQ) -> Quad {
	Quad(lterm(q.0), lterm(q.1), lterm(q.2), q.3.map(lterm))
}
fn lrename(d: &LD, f: &dyn Fn(u16) -> u16) -> LD {
	d.iter().map(|q| (f(q.0), f(q.1), f(q.2), q.3.map(f))).collect()
}
/// Labelled blank nodes (few share a label, so that the search stays short), random arcs, a hub or a big blank graph.
fn large(c: &mut Ctx) -> LD {
	let n = [3, 8, 20, 40, 60][c.rng.below(5)] as u16;
	let share = 1 + c.rng.below(3) as u16;
	let preds = 1 + c.rng.below(4);
	let mut d = LD::new();
	for i in 0..n {
		d.insert((i, 200, 300 + i / share, None));
	}
	let hub = c.rng.below(n as usize) as u16;
	let kind = c.rng.below(4);
	for _ in 0..c.rng.below(4 * n as usize) {
		let (x, y) = (c.rng.below(n as usize) as u16, c.rng.below(n as usize) as u16);
		let p = 201 + c.rng.below(preds) as u16;
		d.insert(match (kind, c.rng.below(3)) {
			(0, 0) => (hub, p, y, None),
			(1, 0) => (x, p, y, Some(hub)),
			(1, 1) => (250 + x % 7, p, 251 + y % 5, Some(hub)),
			(2, 0) => (x, hub, y, None),
			(2, 1) => (x, p, 260 + y % 9, Some(y)),
			(_, 2) => (x, p, y, Some(270)),
			_ => (x, p, y, None),
		});
	}
	// ground quads
	for _ in 0..c.rng.below(20) {
		d.insert((280 + c.rng.below(4) as u16, 201, 280 + c.rng.below(6) as u16, if c.rng.chance(1, 3) { Some(270) } else { None }));
	}
	d
}
fn check_large(a: &LD, b: &LD, want: bool, sound: bool) -> Check {
	let da: IndexedBTreeDataset = a.iter().map(lquad).collect();
	let db: BTreeDataset = b.iter().rev().map(lquad).collect();
	let r = find_bijection(&da, &db);
	if !sound {
		ensure!(r.is_some() || !want, "not reported isomorphic, and a renaming exists");
		ensure!(are_isomorphic(&db, &da) || !want, "are_isomorphic fails, and a renaming exists");
		return Ok(());
	}
	ensure!(r.is_none() || want, "reported isomorphic, and no renaming exists");
	if let Some(s) = r {
		let back: BTreeMap<LocalTerm, u16> = (0..400).map(|n| (lterm(n), n)).collect();
		let m: BTreeMap<u16, u16> = s.forward.iter().map(|(x, y)| (back[*x], back[*y])).collect();
		ensure!(m.iter().all(|(x, y)| s.backward.get(&lterm(*y)) == Some(&&lterm(*x))) && s.backward.len() == m.len(), "the directions of the bijection differ");
		ensure!(lrename(a, &|x| if x < 200 { m.get(&x).copied().unwrap_or(999) } else { x }) == *b, "the bijection does not turn the first dataset into the second");
	}
	Ok(())
}
fn run_large(c: &mut Ctx, sound: bool) {
	let show = |a: &LD, b: &LD| format!("{a:?} against {b:?} (below 200 blank nodes, 200 to 299 IRIs, then literals)");
	for _ in 0..c.n(400, 4000) {
		if c.out_of_time() {
			break;
		}
		let a = large(c);
		let mut to: Vec<u16> = (0..200).collect();
		for i in 0..200 {
			to.swap(i, c.rng.below(200));
		}
		let mut b = lrename(&a, &|x| if x < 200 { to[x as usize] } else { x });
		c.case((&a, &b), &|| show(&a, &b), || check_large(&a, &b, true, sound));
		// Another IRI or literal in one quad, or another graph: what is left when blank nodes are not told apart differs.
		let mask = |d: &LD| {
			let f = |x: u16| if x < 200 { 0 } else { x };
			let mut v: Vec<LQ> = d.iter().map(|q| (f(q.0), f(q.1), f(q.2), q.3.map(f))).collect();
			v.sort();
			v
		};
		let q = *b.iter().nth(c.rng.below(b.len())).unwrap();
		b.remove(&q);
		let q2 = match c.rng.below(3) {
			0 if q.2 >= 200 => (q.0, q.1, if q.2 >= 300 { 300 + c.rng.below(60) as u16 } else { 285 }, q.3),
			1 if q.1 >= 200 => (q.0, 201 + c.rng.below(6) as u16, q.2, q.3),
			_ => (q.0, q.1, q.2, if q.3.is_some() { None } else { Some(271) }),
		};
		b.insert(q2);
		if sound && mask(&a) != mask(&b) {
			c.case((&a, &b), &|| show(&a, &b), || check_large(&a, &b, false, sound));
		}
	}
	c.scope("random datasets of up to 60 labelled blank nodes and 320 quads (hubs, blank graphs and predicates), renamed, and with one term changed");
}
pub fn c20(c: &mut Ctx) {
	run_large(c, true);
	run(c, true)
}
pub fn c21(c: &mut Ctx) {
	run_large(c, false);
	run(c, false)
}
