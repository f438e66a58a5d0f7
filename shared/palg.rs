//! Postconditions of the pattern algebra (C11, C12, C13), stated over the public
//! operations of the crate and the reference semantics of `canon`. The same text is
//! discharged by Kani with every choice symbolic (complete over `u8` resources and
//! variables) and run by the driver with every choice enumerated over small domains.
use crate::canon::*;
use rdf_types::pattern::quad::canonical as q;
use rdf_types::pattern::triple::canonical as t;
use rdf_types::pattern::{
	CanonicalQuadPattern, CanonicalTriplePattern, QuadPattern, ResourceOrVar, TriplePattern,
};
use rdf_types::{Quad, Triple};

pub type Rv = ResourceOrVar<u8, u8>;

fn rv<C: Choose<u8>>(c: &mut C) -> Rv {
	match c.pick(2) {
		0 => ResourceOrVar::Resource(c.res()),
		_ => ResourceOrVar::Var(c.res()),
	}
}
fn opt<C: Choose<u8>>(c: &mut C) -> Option<u8> {
	match c.pick(2) {
		0 => None,
		_ => Some(c.res()),
	}
}

/// Reference semantics of patterns with variables: fixed components are equal to
/// the statement's, and components sharing a variable are equal to each other.
fn sat_rv(p: &[Option<Rv>], k: &[Option<u8>; 4]) -> bool {
	let mut ok = true;
	let mut i = 0;
	while i < p.len() {
		match p[i] {
			None => ok = ok && k[i].is_none(),
			Some(ResourceOrVar::Resource(r)) => ok = ok && k[i] == Some(r),
			Some(ResourceOrVar::Var(x)) => {
				let mut j = 0;
				while j < i {
					if p[j] == Some(ResourceOrVar::Var(x)) {
						ok = ok && k[i] == k[j];
					}
					j += 1;
				}
			}
		}
		i += 1;
	}
	ok
}

/// The same pattern with other variable names.
fn renamed<C: Choose<u8>>(c: &mut C, p: &[Option<Rv>; 4]) -> Option<[Option<Rv>; 4]> {
	let mut r = *p;
	let mut i = 0;
	while i < 4 {
		if let Some(ResourceOrVar::Var(_)) = p[i] {
			r[i] = Some(ResourceOrVar::Var(c.res()));
		}
		i += 1;
	}
	// keep only injective renamings
	let mut i = 0;
	while i < 4 {
		let mut j = 0;
		while j < i {
			if let (Some(ResourceOrVar::Var(a)), Some(ResourceOrVar::Var(b))) = (p[i], p[j]) {
				if (a == b) != (r[i] == r[j]) {
					return None;
				}
			}
			j += 1;
		}
		i += 1;
	}
	Some(r)
}

pub fn c11_triple_pattern<C: Choose<u8>>(c: &mut C) {
	let (a, b, d) = (rv(c), rv(c), rv(c));
	let (s, p, o) = (c.res(), c.res(), c.res());
	let pat: TriplePattern<u8, u8> = Triple(a, b, d);
	let r = CanonicalTriplePattern::from_pattern(pat);
	assert!(r == CanonicalTriplePattern::from(pat), "conversion trait agrees with the constructor");
	let spec = [Some(a), Some(b), Some(d)];
	assert!(
		sat_t(&r, s, p, o) == sat_rv(&spec, &[Some(s), Some(p), Some(o), None]),
		"triple pattern: the canonical pattern is satisfied by exactly the same triples"
	);
	// a triple pattern with variables used as a quad pattern addresses the default graph
	let g = opt(c);
	let q = CanonicalQuadPattern::from_triple_pattern(pat);
	assert!(q == CanonicalQuadPattern::from(pat), "conversion trait agrees with the constructor");
	let k = [Some(s), Some(p), Some(o), g];
	assert!(
		sat_q(&q, s, p, o, g) == (sat_rv(&spec, &k) && g.is_none()),
		"triple pattern as a quad pattern: exactly the same triples, in the default graph"
	);
}

pub fn c11_triple_renaming<C: Choose<u8>>(c: &mut C) {
	let p = [Some(rv(c)), Some(rv(c)), Some(rv(c)), None];
	if let Some(r) = renamed(c, &p) {
		let f = |x: [Option<Rv>; 4]| {
			CanonicalTriplePattern::from_pattern(Triple(x[0].unwrap(), x[1].unwrap(), x[2].unwrap()))
		};
		assert!(f(p) == f(r), "renaming variables does not change the canonical triple pattern");
	}
}

pub fn c11_quad_pattern<C: Choose<u8>>(c: &mut C) {
	let (a, b, d) = (rv(c), rv(c), rv(c));
	let e = match c.pick(2) {
		0 => None,
		_ => Some(rv(c)),
	};
	let (s, p, o, g) = (c.res(), c.res(), c.res(), opt(c));
	let pat: QuadPattern<u8, u8> = Quad(a, b, d, e);
	let r = CanonicalQuadPattern::from_pattern(pat);
	assert!(r == CanonicalQuadPattern::from(pat), "conversion trait agrees with the constructor");
	let k = [Some(s), Some(p), Some(o), g];
	assert!(
		sat_q(&r, s, p, o, g) == sat_rv(&[Some(a), Some(b), Some(d), e], &k),
		"quad pattern: the canonical pattern is satisfied by exactly the same quads"
	);
}

pub fn c11_quad_renaming<C: Choose<u8>>(c: &mut C) {
	let e = match c.pick(2) {
		0 => None,
		_ => Some(rv(c)),
	};
	let p = [Some(rv(c)), Some(rv(c)), Some(rv(c)), e];
	if let Some(r) = renamed(c, &p) {
		let f = |x: [Option<Rv>; 4]| {
			CanonicalQuadPattern::from_pattern(Quad(x[0].unwrap(), x[1].unwrap(), x[2].unwrap(), x[3]))
		};
		assert!(f(p) == f(r), "renaming variables does not change the canonical quad pattern");
	}
}

pub fn c11_partial<C: Choose<u8>>(c: &mut C) {
	let (a, b, d) = (opt(c), opt(c), opt(c));
	let (s, p, o, g) = (c.res(), c.res(), c.res(), opt(c));
	let m = a.map_or(true, |x| x == s) && b.map_or(true, |x| x == p) && d.map_or(true, |x| x == o);
	let r = CanonicalTriplePattern::from_option_triple(Triple(a, b, d));
	assert!(r == CanonicalTriplePattern::from(Triple(a, b, d)), "conversion trait agrees with the constructor");
	assert!(sat_t(&r, s, p, o) == m, "partial triple: exactly the triples with the given components");
	let r = CanonicalQuadPattern::from_option_triple(Triple(a, b, d));
	assert!(r == CanonicalQuadPattern::from(Triple(a, b, d)), "conversion trait agrees with the constructor");
	assert!(sat_q(&r, s, p, o, g) == m, "partial triple as a quad pattern: any graph");
	let e = match c.pick(2) {
		0 => None,
		_ => Some(opt(c)),
	};
	let r = CanonicalQuadPattern::from_option_quad(Quad(a, b, d, e));
	assert!(r == CanonicalQuadPattern::from(Quad(a, b, d, e)), "conversion trait agrees with the constructor");
	assert!(
		sat_q(&r, s, p, o, g) == (m && e.map_or(true, |x| x == g)),
		"partial quad: exactly the quads with the given components"
	);
}

pub fn c11_full<C: Choose<u8>>(c: &mut C) {
	let (a, b, d, e) = (c.res(), c.res(), c.res(), opt(c));
	let (s, p, o, g) = (c.res(), c.res(), c.res(), opt(c));
	let m = a == s && b == p && d == o;
	let r = CanonicalTriplePattern::from_triple(Triple(a, b, d));
	assert!(r == CanonicalTriplePattern::from(Triple(a, b, d)), "conversion trait agrees with the constructor");
	assert!(sat_t(&r, s, p, o) == m, "full triple: exactly that triple");
	let r = CanonicalQuadPattern::from_triple(Triple(a, b, d));
	assert!(r == CanonicalQuadPattern::from(Triple(a, b, d)), "conversion trait agrees with the constructor");
	assert!(sat_q(&r, s, p, o, g) == m, "full triple as a quad pattern: any graph");
	let r = CanonicalQuadPattern::from_quad(Quad(a, b, d, e));
	assert!(r == CanonicalQuadPattern::from(Quad(a, b, d, e)), "conversion trait agrees with the constructor");
	assert!(sat_q(&r, s, p, o, g) == (m && e == g), "full quad: exactly that quad");
}

fn ts(x: t::PatternSubject<u8>) -> Cn<u8> {
	match x {
		t::PatternSubject::Any => Cn::Any,
		t::PatternSubject::Given(v) => Cn::Is(v),
	}
}
fn tp(x: t::PatternPredicate<u8>) -> Cn<u8> {
	match x {
		t::PatternPredicate::Any => Cn::Any,
		t::PatternPredicate::SameAsSubject => Cn::Same(0),
		t::PatternPredicate::Given(v) => Cn::Is(v),
	}
}
fn to(x: t::PatternObject<u8>) -> Cn<u8> {
	match x {
		t::PatternObject::Any => Cn::Any,
		t::PatternObject::SameAsSubject => Cn::Same(0),
		t::PatternObject::SameAsPredicate => Cn::Same(1),
		t::PatternObject::Given(v) => Cn::Is(v),
	}
}
fn qs(x: q::PatternSubject<u8>) -> Cn<u8> {
	match x {
		q::PatternSubject::Any => Cn::Any,
		q::PatternSubject::Given(v) => Cn::Is(v),
	}
}
fn qp(x: q::PatternPredicate<u8>) -> Cn<u8> {
	match x {
		q::PatternPredicate::Any => Cn::Any,
		q::PatternPredicate::SameAsSubject => Cn::Same(0),
		q::PatternPredicate::Given(v) => Cn::Is(v),
	}
}
fn qo(x: q::PatternObject<u8>) -> Cn<u8> {
	match x {
		q::PatternObject::Any => Cn::Any,
		q::PatternObject::SameAsSubject => Cn::Same(0),
		q::PatternObject::SameAsPredicate => Cn::Same(1),
		q::PatternObject::Given(v) => Cn::Is(v),
	}
}
fn qg(x: q::PatternGraph<u8>) -> Cn<u8> {
	match x {
		q::PatternGraph::Any => Cn::Any,
		q::PatternGraph::SameAsSubject => Cn::Same(0),
		q::PatternGraph::SameAsPredicate => Cn::Same(1),
		q::PatternGraph::SameAsObject => Cn::Same(2),
		q::PatternGraph::Given(None) => Cn::Default,
		q::PatternGraph::Given(Some(v)) => Cn::Is(v),
	}
}
fn qg_ref(x: q::PatternGraph<&u8>) -> Cn<u8> {
	match x {
		q::PatternGraph::Any => Cn::Any,
		q::PatternGraph::SameAsSubject => Cn::Same(0),
		q::PatternGraph::SameAsPredicate => Cn::Same(1),
		q::PatternGraph::SameAsObject => Cn::Same(2),
		q::PatternGraph::Given(None) => Cn::Default,
		q::PatternGraph::Given(Some(v)) => Cn::Is(*v),
	}
}
fn is(c: Cn<u8>) -> Option<u8> {
	match c {
		Cn::Is(v) => Some(v),
		_ => None,
	}
}

pub fn c12_triple<C: Choose<u8>>(c: &mut C) {
	let x = gen_t(c);
	let k = parts_t(&x);
	assert!(ts(x.subject().cloned()) == k[0], "triple pattern subject by reference");
	assert!(ts(x.into_subject()) == k[0], "triple pattern subject by value");
	assert!(tp(x.predicate().cloned()) == k[1], "triple pattern predicate by reference");
	assert!(tp(x.into_predicate()) == k[1], "triple pattern predicate by value");
	assert!(to(x.object().cloned()) == k[2], "triple pattern object by reference");
	assert!(to(x.into_object()) == k[2], "triple pattern object by value");
	let w = parts_q(&x.with_any_graph());
	assert!(
		w[0] == k[0] && w[1] == k[1] && w[2] == k[2] && w[3] == Cn::Any,
		"widening a triple pattern to any graph keeps the other constraints"
	);
	let (s, p, o) = (x.into_subject(), x.into_predicate(), x.into_object());
	assert!(s.id().copied() == is(k[0]) && s.into_id() == is(k[0]), "fixed subject of a constraint");
	assert!(p.id().copied() == is(k[1]) && p.into_id() == is(k[1]), "fixed predicate of a constraint");
	assert!(o.id().copied() == is(k[2]) && o.into_id() == is(k[2]), "fixed object of a constraint");
	let st = (c.res(), c.res(), c.res());
	assert!(
		o.filter_triple(Triple(st.0, st.1, st.2)) == sat(&[Cn::Any, Cn::Any, k[2]], st.0, st.1, st.2, None),
		"object filter of a triple pattern"
	);
}

/// Components of patterns with variables: a resource is mapped or borrowed in its place, a variable stays as it is.
pub fn c12_role<C: Choose<u8>>(c: &mut C) {
	let (x, k) = (c.res(), c.res());
	match c.pick(2) {
		0 => {
			let r: Rv = ResourceOrVar::Resource(x);
			assert!(r.map(|y| (y, k)) == ResourceOrVar::Resource((x, k)), "mapping a resource");
			assert!(r.as_ref() == ResourceOrVar::Resource(&x), "borrowing a resource");
			assert!(r.is_id_or(|y| *y == k), "a resource is one");
			let f: Rv = x.into();
			assert!(f == r, "a resource as a component");
		}
		_ => {
			let r: Rv = ResourceOrVar::Var(x);
			assert!(r.map(|y| (y, k)) == ResourceOrVar::Var(x), "mapping a variable");
			assert!(r.as_ref() == ResourceOrVar::Var(&x), "borrowing a variable");
			assert!(r.is_id_or(|y| *y == k) == (x == k), "a variable is tested");
		}
	}
}

pub fn c12_quad_read<C: Choose<u8>>(c: &mut C) {
	let x = gen_q(c);
	let k = parts_q(&x);
	assert!(qs(x.subject().cloned()) == k[0], "quad pattern subject by reference");
	assert!(qs(x.into_subject()) == k[0], "quad pattern subject by value");
	assert!(qp(x.predicate().cloned()) == k[1], "quad pattern predicate by reference");
	assert!(qp(x.into_predicate()) == k[1], "quad pattern predicate by value");
	assert!(qo(x.object().cloned()) == k[2], "quad pattern object by reference");
	assert!(qo(x.into_object()) == k[2], "quad pattern object by value");
	assert!(qg_ref(x.graph()) == k[3], "quad pattern graph by reference");
	assert!(qg(x.into_graph()) == k[3], "quad pattern graph by value");
	let (s, p, o, g) = x.into_parts();
	assert!(
		qs(s) == k[0] && qp(p) == k[1] && qo(o) == k[2] && qg(g) == k[3],
		"all components of a quad pattern at once"
	);
	let (tr, g) = x.into_triple();
	let kt = parts_t(&tr);
	assert!(
		kt[0] == k[0] && kt[1] == k[1] && kt[2] == k[2] && qg(g) == k[3],
		"splitting a quad pattern into a triple pattern and a graph constraint"
	);
	assert!(s.id().copied() == is(k[0]) && s.into_id() == is(k[0]), "fixed subject of a constraint");
	assert!(p.id().copied() == is(k[1]) && p.into_id() == is(k[1]), "fixed predicate of a constraint");
	assert!(o.id().copied() == is(k[2]) && o.into_id() == is(k[2]), "fixed object of a constraint");
	let st = (c.res(), c.res(), c.res());
	assert!(
		o.filter_triple(Triple(st.0, st.1, st.2)) == sat(&[Cn::Any, Cn::Any, k[2]], st.0, st.1, st.2, None),
		"object filter of a quad pattern"
	);
}

fn image<U: Copy>(k: Cn<u8>, f: impl Fn(u8) -> U) -> Cn<U> {
	match k {
		Cn::Any => Cn::Any,
		Cn::Same(i) => Cn::Same(i),
		Cn::Is(v) => Cn::Is(f(v)),
		Cn::Default => Cn::Default,
	}
}
fn eq4<U: PartialEq + Copy>(a: &[Cn<U>; 4], b: &[Cn<U>; 4]) -> bool {
	a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
}

pub fn c12_quad_map<C: Choose<u8>>(c: &mut C) {
	let x = gen_q(c);
	let k = parts_q(&x);
	let (m, n) = (c.res(), c.res());
	let f = |v: u8| (v, m);
	let h = |v: u8| (n, v ^ n);
	let im = |g: &dyn Fn(u8) -> (u8, u8)| [image(k[0], g), image(k[1], g), image(k[2], g), image(k[3], g)];
	{
		let r = x.as_ref();
		let kr = parts_q(&r);
		let mut i = 0;
		while i < 4 {
			let same = match (kr[i], k[i]) {
				(Cn::Any, Cn::Any) | (Cn::Default, Cn::Default) => true,
				(Cn::Same(a), Cn::Same(b)) => a == b,
				(Cn::Is(a), Cn::Is(b)) => *a == b,
				_ => false,
			};
			assert!(same, "borrowing a quad pattern");
			i += 1;
		}
	}
	assert!(eq4(&parts_q(&x.map(f)), &im(&f)), "mapping the resources of a quad pattern");
	let (u, v) = x.map2(|v| (f(v), h(v)));
	assert!(eq4(&parts_q(&u), &im(&f)), "first result of a double mapping of a quad pattern");
	assert!(eq4(&parts_q(&v), &im(&h)), "second result of a double mapping of a quad pattern");
}

/// `i`: the component fixed; `k`: the constraints before; the statement satisfies
/// the new pattern exactly when it has `v` there and, with its component put back
/// to what the old pattern fixed (if it fixed one), satisfied the old pattern.
fn substituted(k: &[Cn<u8>; 3], i: usize, v: u8, st: [u8; 3]) -> bool {
	let mut back = st;
	if let Cn::Is(old) = k[i] {
		back[i] = old;
	}
	st[i] == v && sat(k, back[0], back[1], back[2], None)
}

pub fn c13_subject<C: Choose<u8>>(c: &mut C) {
	let x = gen_t(c);
	let k = parts_t(&x);
	let (v, s, p, o) = (c.res(), c.res(), c.res(), c.res());
	let mut y = x;
	let old = y.set_subject(v);
	assert!(ts(old) == k[0], "fixing the subject returns the previous subject constraint");
	assert!(sat_t(&y, s, p, o) == substituted(&k, 0, v, [s, p, o]), "fixing the subject is substitution");
	assert!(x.with_subject(v) == y, "fixing the subject by value agrees");
}

pub fn c13_predicate<C: Choose<u8>>(c: &mut C) {
	let x = gen_t(c);
	let k = parts_t(&x);
	let (v, s, p, o) = (c.res(), c.res(), c.res(), c.res());
	let mut y = x;
	let old = y.set_predicate(v);
	assert!(tp(old) == k[1], "fixing the predicate returns the previous predicate constraint");
	assert!(sat_t(&y, s, p, o) == substituted(&k, 1, v, [s, p, o]), "fixing the predicate is substitution");
	assert!(x.with_predicate(v) == y, "fixing the predicate by value agrees");
	// below the subject: the other components change as they do in the whole
	match (x, y) {
		(CanonicalTriplePattern::AnySubject(mut q), _) => {
			assert!(tp(q.set_predicate(v)) == k[1], "fixing the predicate below the subject returns the previous predicate constraint");
			let z = parts_t(&CanonicalTriplePattern::AnySubject(q));
			assert!(z[1] == Cn::Is(v), "fixing the predicate below the subject");
			let linked = k[2] == Cn::Same(1) || (k[1] == Cn::Same(0) && k[2] == Cn::Same(0));
			assert!(z[2] == if linked { Cn::Is(v) } else { k[2] }, "fixing the predicate below the subject: object");
		}
		(CanonicalTriplePattern::GivenSubject(s, mut q), _) => {
			assert!(tp(q.set_predicate(v)) == k[1], "fixing the predicate below the subject returns the previous predicate constraint");
			assert!(CanonicalTriplePattern::GivenSubject(s, q) == y, "fixing the predicate below the subject");
		}
	}
}

pub fn c13_object<C: Choose<u8>>(c: &mut C) {
	let x = gen_t(c);
	let k = parts_t(&x);
	let (v, s, p, o) = (c.res(), c.res(), c.res(), c.res());
	let mut y = x;
	let old = y.set_object(v);
	assert!(to(old) == k[2], "fixing the object returns the previous object constraint");
	assert!(sat_t(&y, s, p, o) == substituted(&k, 2, v, [s, p, o]), "fixing the object is substitution");
	assert!(x.with_object(v) == y, "fixing the object by value agrees");
	match (x, y) {
		(CanonicalTriplePattern::AnySubject(mut q), _) => {
			assert!(to(q.set_object(v)) == k[2], "fixing the object below the subject returns the previous object constraint");
			let z = parts_t(&CanonicalTriplePattern::AnySubject(q));
			assert!(z[2] == Cn::Is(v), "fixing the object below the subject");
			let linked = k[2] == Cn::Same(1) || (k[1] == Cn::Same(0) && k[2] == Cn::Same(0));
			assert!(z[1] == if linked { Cn::Is(v) } else { k[1] }, "fixing the object below the subject: predicate");
		}
		(CanonicalTriplePattern::GivenSubject(s, mut q), _) => {
			assert!(to(q.set_object(v)) == k[2], "fixing the object below the subject returns the previous object constraint");
			assert!(CanonicalTriplePattern::GivenSubject(s, q) == y, "fixing the object below the subject");
		}
	}
}
