//! Postconditions of statements (`Triple`, `Quad`): comparisons (C17) and
//! component access (C19). Component comparisons are abstract: the component
//! types below answer with arbitrary, independent results, so what is proved of
//! the statement types holds for every component type.
use crate::canon::Choose;
use rdf_types::{Quad, Triple};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Left-hand component whose comparison results are arbitrary.
#[derive(Clone, Copy)]
struct L<const K: u8> {
	eq: bool,
	po: Option<Ordering>,
	to: Ordering,
}
/// Right-hand component.
#[derive(Clone, Copy)]
struct R<const K: u8>;
impl<const K: u8> PartialEq<R<K>> for L<K> {
	fn eq(&self, _: &R<K>) -> bool {
		self.eq
	}
}
impl<const K: u8> PartialOrd<R<K>> for L<K> {
	fn partial_cmp(&self, _: &R<K>) -> Option<Ordering> {
		self.po
	}
}
impl<const K: u8> PartialEq for L<K> {
	fn eq(&self, _: &Self) -> bool {
		self.eq
	}
}
impl<const K: u8> Eq for L<K> {}
impl<const K: u8> PartialOrd for L<K> {
	fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
		self.po
	}
}
impl<const K: u8> Ord for L<K> {
	fn cmp(&self, _: &Self) -> Ordering {
		self.to
	}
}
fn ord<C: Choose<u8>>(c: &mut C) -> Ordering {
	match c.pick(3) {
		0 => Ordering::Less,
		1 => Ordering::Equal,
		_ => Ordering::Greater,
	}
}
fn l<const K: u8, C: Choose<u8>>(c: &mut C) -> L<K> {
	let po = match c.pick(2) {
		0 => None,
		_ => Some(ord(c)),
	};
	L { eq: c.pick(2) == 1, po, to: ord(c) }
}
fn then(a: Option<Ordering>, b: Option<Ordering>) -> Option<Ordering> {
	match a {
		Some(Ordering::Equal) => b,
		x => x,
	}
}
fn then_o(a: Ordering, b: Ordering) -> Ordering {
	match a {
		Ordering::Equal => b,
		x => x,
	}
}

pub fn c17_triple<C: Choose<u8>>(c: &mut C) {
	let (s, p, o) = (l::<0, C>(c), l::<1, C>(c), l::<2, C>(c));
	let a = Triple(s, p, o);
	let b = Triple(R::<0>, R::<1>, R::<2>);
	let want = then(s.po, then(p.po, o.po));
	assert!(a.partial_cmp(&b) == want, "triples compare lexicographically");
	assert!((a < b) == (want == Some(Ordering::Less)), "< on triples");
	assert!((a > b) == (want == Some(Ordering::Greater)), "> on triples");
	assert!((a <= b) == (want == Some(Ordering::Less) || want == Some(Ordering::Equal)), "<= on triples");
	assert!((a >= b) == (want == Some(Ordering::Greater) || want == Some(Ordering::Equal)), ">= on triples");
	let eq = s.eq && p.eq && o.eq;
	assert!((a == b) == eq && (a != b) == !eq, "triples are equal exactly when all components are");
	let d = Triple(l::<0, C>(c), l::<1, C>(c), l::<2, C>(c));
	assert!(a.partial_cmp(&d) == want, "triples of one type compare lexicographically");
	assert!((a == d) == eq, "equality of triples of one type");
	assert!(a.cmp(&d) == then_o(s.to, then_o(p.to, o.to)), "the total order of triples is lexicographic");
}

pub fn c17_quad<C: Choose<u8>>(c: &mut C) {
	let (s, p, o) = (l::<0, C>(c), l::<1, C>(c), l::<2, C>(c));
	let g = match c.pick(2) {
		0 => None,
		_ => Some(l::<3, C>(c)),
	};
	let named = c.pick(2) == 1;
	let a = Quad(s, p, o, g);
	let b = Quad(R::<0>, R::<1>, R::<2>, if named { Some(R::<3>) } else { None });
	let gpo = match (g, named) {
		(None, false) => Some(Ordering::Equal),
		(None, true) => Some(Ordering::Less),
		(Some(_), false) => Some(Ordering::Greater),
		(Some(g), true) => g.po,
	};
	let want = then(s.po, then(p.po, then(o.po, gpo)));
	assert!(a.partial_cmp(&b) == want, "quads compare lexicographically, the default graph first");
	assert!((a < b) == (want == Some(Ordering::Less)), "< on quads");
	assert!((a >= b) == (want == Some(Ordering::Greater) || want == Some(Ordering::Equal)), ">= on quads");
	let geq = match (g, named) {
		(None, false) => true,
		(Some(g), true) => g.eq,
		_ => false,
	};
	let eq = s.eq && p.eq && o.eq && geq;
	assert!((a == b) == eq && (a != b) == !eq, "quads are equal exactly when all components are");
	let d = Quad(l::<0, C>(c), l::<1, C>(c), l::<2, C>(c), if named { Some(l::<3, C>(c)) } else { None });
	assert!(a.partial_cmp(&d) == want, "quads of one type compare lexicographically");
	assert!((a == d) == eq, "equality of quads of one type");
	let gto = match (g, named) {
		(None, false) => Ordering::Equal,
		(None, true) => Ordering::Less,
		(Some(_), false) => Ordering::Greater,
		(Some(g), true) => g.to,
	};
	assert!(
		a.cmp(&d) == then_o(s.to, then_o(p.to, then_o(o.to, gto))),
		"the total order of quads is lexicographic, the default graph first"
	);
}

/// Records what is hashed.
#[derive(Clone, Copy)]
struct Rec {
	a: [u64; 8],
	n: usize,
}
impl PartialEq for Rec {
	fn eq(&self, o: &Self) -> bool {
		let (a, b) = (&self.a, &o.a);
		self.n == o.n && self.n <= 8
			&& a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
			&& a[4] == b[4] && a[5] == b[5] && a[6] == b[6] && a[7] == b[7]
	}
}
impl Rec {
	fn put(&mut self, x: u64) {
		self.a[self.n % 8] = x;
		self.n += 1;
	}
}
impl Hasher for Rec {
	fn finish(&self) -> u64 {
		0
	}
	fn write(&mut self, b: &[u8]) {
		// bytes of fixed-size values only: length and first byte
		self.put(b.len() as u64);
		self.put(if b.is_empty() { 0 } else { b[0] as u64 });
	}
	fn write_u8(&mut self, i: u8) {
		self.put(i as u64)
	}
	fn write_isize(&mut self, i: isize) {
		self.put(i as u64)
	}
	fn write_usize(&mut self, i: usize) {
		self.put(i as u64)
	}
}
fn hash_of<T: Hash>(t: &T) -> Rec {
	let mut r = Rec { a: [0; 8], n: 0 };
	t.hash(&mut r);
	r
}
fn opt<C: Choose<u8>>(c: &mut C) -> Option<u8> {
	match c.pick(2) {
		0 => None,
		_ => Some(c.res()),
	}
}
pub fn c17_hash<C: Choose<u8>>(c: &mut C) {
	let a = Quad(c.res(), c.res(), c.res(), opt(c));
	let b = Quad(c.res(), c.res(), c.res(), opt(c));
	if a == b {
		assert!(hash_of(&a) == hash_of(&b), "equal quads hash alike");
	}
	let (a, _) = a.into_triple();
	let (b, _) = b.into_triple();
	if a == b {
		assert!(hash_of(&a) == hash_of(&b), "equal triples hash alike");
	}
}

/// Distinct component types, so that components cannot be exchanged.
#[derive(Clone, Copy, PartialEq)]
struct W<const K: u8>(u8);

pub fn c19_triple<C: Choose<u8>>(c: &mut C) {
	let (s, p, o) = (c.res(), c.res(), c.res());
	let t = Triple::new(W::<0>(s), W::<1>(p), W::<2>(o));
	assert!(t.0 == W(s) && t.1 == W(p) && t.2 == W(o), "triple constructor");
	assert!(*t.subject() == W(s) && *t.predicate() == W(p) && *t.object() == W(o), "triple accessors");
	assert!(t.into_subject() == W(s) && t.into_predicate() == W(p) && t.into_object() == W(o), "triple owned accessors");
	assert!(t.into_parts() == (W(s), W(p), W(o)), "triple into_parts");
	let x = c.res();
	let m = t.map_subject(|y| { assert!(y == W(s)); W::<9>(x) });
	assert!(m.0 == W(x) && m.1 == W(p) && m.2 == W(o), "map_subject");
	let m = t.map_predicate(|y| { assert!(y == W(p)); W::<9>(x) });
	assert!(m.0 == W(s) && m.1 == W(x) && m.2 == W(o), "map_predicate");
	let m = t.map_object(|y| { assert!(y == W(o)); W::<9>(x) });
	assert!(m.0 == W(s) && m.1 == W(p) && m.2 == W(x), "map_object");
	let mut m = t;
	*m.subject_mut() = W(x);
	assert!(m.0 == W(x) && m.1 == W(p) && m.2 == W(o), "subject_mut");
	let mut m = t;
	*m.predicate_mut() = W(x);
	assert!(m.0 == W(s) && m.1 == W(x) && m.2 == W(o), "predicate_mut");
	let mut m = t;
	*m.object_mut() = W(x);
	assert!(m.0 == W(s) && m.1 == W(p) && m.2 == W(x), "object_mut");
	let same = |r: Triple<W<0>, W<1>, W<2>>| r.0 == W(s) && r.1 == W(p) && r.2 == W(o);
	let r = t.as_ref();
	assert!(*r.0 == W(s) && *r.1 == W(p) && *r.2 == W(o), "triple as_ref");
	assert!(same(r.cloned()) && same(r.into_cloned()) && same(r.copied()) && same(r.into_copied()), "triple copies");
	let g = opt(c);
	let q = t.into_quad(g);
	assert!(q.0 == W(s) && q.1 == W(p) && q.2 == W(o) && q.3 == g, "into_quad");
	// map: each component through the function, in order
	let u = Triple(s, p, o);
	let mut n = 0u8;
	let m = u.map(|y| { n += 1; (n, y) });
	assert!(m.0 == (1, s) && m.1 == (2, p) && m.2 == (3, o), "map");
}

pub fn c19_quad<C: Choose<u8>>(c: &mut C) {
	let (s, p, o) = (c.res(), c.res(), c.res());
	let g = opt(c).map(W::<3>);
	let q = Quad::new(W::<0>(s), W::<1>(p), W::<2>(o), g);
	assert!(q.0 == W(s) && q.1 == W(p) && q.2 == W(o) && q.3 == g, "quad constructor");
	assert!(*q.subject() == W(s) && *q.predicate() == W(p) && *q.object() == W(o), "quad accessors");
	assert!(q.graph().copied() == g, "quad graph accessor");
	assert!(q.into_subject() == W(s) && q.into_predicate() == W(p) && q.into_object() == W(o) && q.into_graph() == g, "quad owned accessors");
	assert!(q.into_parts() == (W(s), W(p), W(o), g), "quad into_parts");
	let (t, tg) = q.into_triple();
	assert!(t.0 == W(s) && t.1 == W(p) && t.2 == W(o) && tg == g, "into_triple");
	let x = c.res();
	let m = q.map_subject(|y| { assert!(y == W(s)); W::<9>(x) });
	assert!(m.0 == W(x) && m.1 == W(p) && m.2 == W(o) && m.3 == g, "quad map_subject");
	let m = q.map_predicate(|y| { assert!(y == W(p)); W::<9>(x) });
	assert!(m.0 == W(s) && m.1 == W(x) && m.2 == W(o) && m.3 == g, "quad map_predicate");
	let m = q.map_object(|y| { assert!(y == W(o)); W::<9>(x) });
	assert!(m.0 == W(s) && m.1 == W(p) && m.2 == W(x) && m.3 == g, "quad map_object");
	let h = opt(c).map(W::<9>);
	let m = q.map_graph(|y| { assert!(y == g); h });
	assert!(m.0 == W(s) && m.1 == W(p) && m.2 == W(o) && m.3 == h, "quad map_graph");
	let h3 = h.map(|y| W::<3>(y.0));
	let m = q.with_graph(h3);
	assert!(m.0 == W(s) && m.1 == W(p) && m.2 == W(o) && m.3 == h3, "with_graph");
	let y = c.res();
	let z = c.res();
	let m = q.map_all(
		|a| { assert!(a == W(s)); W::<10>(x) },
		|a| { assert!(a == W(p)); W::<11>(y) },
		|a| { assert!(a == W(o)); W::<12>(z) },
		|a| { assert!(a == g); h },
	);
	assert!(m.0 == W(x) && m.1 == W(y) && m.2 == W(z) && m.3 == h, "map_all");
	let mut m = q;
	*m.subject_mut() = W(x);
	assert!(m.0 == W(x) && m.1 == W(p) && m.2 == W(o) && m.3 == g, "quad subject_mut");
	let mut m = q;
	*m.predicate_mut() = W(x);
	assert!(m.0 == W(s) && m.1 == W(x) && m.2 == W(o) && m.3 == g, "quad predicate_mut");
	let mut m = q;
	*m.object_mut() = W(x);
	assert!(m.0 == W(s) && m.1 == W(p) && m.2 == W(x) && m.3 == g, "quad object_mut");
	let mut m = q;
	match m.graph_mut() {
		Some(r) => *r = W(x),
		None => assert!(g.is_none(), "graph_mut of a named graph"),
	}
	assert!(m.0 == W(s) && m.1 == W(p) && m.2 == W(o) && m.3 == g.map(|_| W(x)), "graph_mut");
	let r = q.as_ref();
	assert!(*r.0 == W(s) && *r.1 == W(p) && *r.2 == W(o) && r.3.copied() == g, "quad as_ref");
	let same = |r: Quad<W<0>, W<1>, W<2>, W<3>>| r.0 == W(s) && r.1 == W(p) && r.2 == W(o) && r.3 == g;
	assert!(same(r.cloned()) && same(r.into_cloned()) && same(r.copied()) && same(r.into_copied()), "quad copies");
	let u = Quad(s, p, o, g.map(|g| g.0));
	let mut n = 0u8;
	let m = u.map(|y| { n += 1; (n, y) });
	assert!(m.0 == (1, s) && m.1 == (2, p) && m.2 == (3, o) && m.3 == g.map(|g| (4, g.0)), "quad map");
}
