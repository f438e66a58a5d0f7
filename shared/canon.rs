//! Independent reference semantics of the canonical pattern types, shared by the
//! Kani harnesses and the driver. Nothing here calls an operation of the crate on
//! patterns: patterns are built and read through their public constructors only.
use rdf_types::pattern::{quad::canonical as q, triple::canonical as t};
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};

/// Source of choices: symbolic (Kani), random, or enumerating.
pub trait Choose<T> {
	fn pick(&mut self, n: u8) -> u8;
	fn res(&mut self) -> T;
}

pub fn gen_t<T, C: Choose<T>>(c: &mut C) -> CanonicalTriplePattern<T> {
	match c.pick(2) {
		0 => CanonicalTriplePattern::AnySubject(match c.pick(3) {
			0 => t::AnySubject::AnyPredicate(match c.pick(4) {
				0 => t::AnySubjectAnyPredicate::AnyObject,
				1 => t::AnySubjectAnyPredicate::SameAsSubject,
				2 => t::AnySubjectAnyPredicate::SameAsPredicate,
				_ => t::AnySubjectAnyPredicate::GivenObject(c.res()),
			}),
			1 => t::AnySubject::SameAsSubject(gen_t_asgp(c)),
			_ => t::AnySubject::GivenPredicate(c.res(), gen_t_asgp(c)),
		}),
		_ => CanonicalTriplePattern::GivenSubject(
			c.res(),
			match c.pick(2) {
				0 => t::GivenSubject::AnyPredicate(match c.pick(3) {
					0 => t::GivenSubjectAnyPredicate::AnyObject,
					1 => t::GivenSubjectAnyPredicate::SameAsPredicate,
					_ => t::GivenSubjectAnyPredicate::GivenObject(c.res()),
				}),
				_ => t::GivenSubject::GivenPredicate(
					c.res(),
					match c.pick(2) {
						0 => t::GivenSubjectGivenPredicate::AnyObject,
						_ => t::GivenSubjectGivenPredicate::GivenObject(c.res()),
					},
				),
			},
		),
	}
}

fn gen_t_asgp<T, C: Choose<T>>(c: &mut C) -> t::AnySubjectGivenPredicate<T> {
	match c.pick(3) {
		0 => t::AnySubjectGivenPredicate::AnyObject,
		1 => t::AnySubjectGivenPredicate::SameAsSubject,
		_ => t::AnySubjectGivenPredicate::GivenObject(c.res()),
	}
}

/// Constraint on one component, as read off the constructors.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cn<T> {
	Any,
	Same(u8),
	Is(T),
	/// Graph position only: the default graph.
	Default,
}

/// The constraints of a triple pattern, component by component.
pub fn parts_t<T: Copy>(p: &CanonicalTriplePattern<T>) -> [Cn<T>; 3] {
	use t::*;
	match p {
		CanonicalTriplePattern::AnySubject(r) => match r {
			AnySubject::AnyPredicate(r) => [
				Cn::Any,
				Cn::Any,
				match r {
					AnySubjectAnyPredicate::AnyObject => Cn::Any,
					AnySubjectAnyPredicate::SameAsSubject => Cn::Same(0),
					AnySubjectAnyPredicate::SameAsPredicate => Cn::Same(1),
					AnySubjectAnyPredicate::GivenObject(o) => Cn::Is(*o),
				},
			],
			AnySubject::SameAsSubject(r) => [Cn::Any, Cn::Same(0), o_asgp(r)],
			AnySubject::GivenPredicate(p, r) => [Cn::Any, Cn::Is(*p), o_asgp(r)],
		},
		CanonicalTriplePattern::GivenSubject(s, r) => match r {
			GivenSubject::AnyPredicate(r) => [
				Cn::Is(*s),
				Cn::Any,
				match r {
					GivenSubjectAnyPredicate::AnyObject => Cn::Any,
					GivenSubjectAnyPredicate::SameAsPredicate => Cn::Same(1),
					GivenSubjectAnyPredicate::GivenObject(o) => Cn::Is(*o),
				},
			],
			GivenSubject::GivenPredicate(p, r) => [
				Cn::Is(*s),
				Cn::Is(*p),
				match r {
					GivenSubjectGivenPredicate::AnyObject => Cn::Any,
					GivenSubjectGivenPredicate::GivenObject(o) => Cn::Is(*o),
				},
			],
		},
	}
}

fn o_asgp<T: Copy>(r: &t::AnySubjectGivenPredicate<T>) -> Cn<T> {
	match r {
		t::AnySubjectGivenPredicate::AnyObject => Cn::Any,
		t::AnySubjectGivenPredicate::SameAsSubject => Cn::Same(0),
		t::AnySubjectGivenPredicate::GivenObject(o) => Cn::Is(*o),
	}
}

fn given_g<T, C: Choose<T>>(c: &mut C) -> Option<T> {
	match c.pick(2) {
		0 => None,
		_ => Some(c.res()),
	}
}

pub fn gen_q<T, C: Choose<T>>(c: &mut C) -> CanonicalQuadPattern<T> {
	use q::*;
	match c.pick(2) {
		0 => CanonicalQuadPattern::AnySubject(match c.pick(3) {
			0 => AnySubject::AnyPredicate(match c.pick(4) {
				0 => AnySubjectAnyPredicate::AnyObject(match c.pick(5) {
					0 => AnySubjectAnyPredicateAnyObject::AnyGraph,
					1 => AnySubjectAnyPredicateAnyObject::SameAsSubject,
					2 => AnySubjectAnyPredicateAnyObject::SameAsPredicate,
					3 => AnySubjectAnyPredicateAnyObject::SameAsObject,
					_ => AnySubjectAnyPredicateAnyObject::GivenGraph(given_g(c)),
				}),
				1 => AnySubjectAnyPredicate::SameAsSubject(gen_asapgo(c)),
				2 => AnySubjectAnyPredicate::SameAsPredicate(gen_asapgo(c)),
				_ => AnySubjectAnyPredicate::GivenObject(c.res(), gen_asapgo(c)),
			}),
			1 => AnySubject::SameAsSubject(gen_asgp(c)),
			_ => AnySubject::GivenPredicate(c.res(), gen_asgp(c)),
		}),
		_ => CanonicalQuadPattern::GivenSubject(
			c.res(),
			match c.pick(2) {
				0 => GivenSubject::AnyPredicate(match c.pick(3) {
					0 => GivenSubjectAnyPredicate::AnyObject(match c.pick(4) {
						0 => GivenSubjectAnyPredicateAnyObject::AnyGraph,
						1 => GivenSubjectAnyPredicateAnyObject::SameAsPredicate,
						2 => GivenSubjectAnyPredicateAnyObject::SameAsObject,
						_ => GivenSubjectAnyPredicateAnyObject::GivenGraph(given_g(c)),
					}),
					1 => GivenSubjectAnyPredicate::SameAsPredicate(gen_gsapgo(c)),
					_ => GivenSubjectAnyPredicate::GivenObject(c.res(), gen_gsapgo(c)),
				}),
				_ => GivenSubject::GivenPredicate(
					c.res(),
					match c.pick(2) {
						0 => GivenSubjectGivenPredicate::AnyObject(match c.pick(3) {
							0 => GivenSubjectGivenPredicateAnyObject::AnyGraph,
							1 => GivenSubjectGivenPredicateAnyObject::SameAsObject,
							_ => GivenSubjectGivenPredicateAnyObject::GivenGraph(given_g(c)),
						}),
						_ => GivenSubjectGivenPredicate::GivenObject(
							c.res(),
							match c.pick(2) {
								0 => GivenSubjectGivenPredicateGivenObject::AnyGraph,
								_ => GivenSubjectGivenPredicateGivenObject::GivenGraph(given_g(c)),
							},
						),
					},
				),
			},
		),
	}
}

fn gen_asapgo<T, C: Choose<T>>(c: &mut C) -> q::AnySubjectAnyPredicateGivenObject<T> {
	use q::AnySubjectAnyPredicateGivenObject::*;
	match c.pick(4) {
		0 => AnyGraph,
		1 => SameAsSubject,
		2 => SameAsPredicate,
		_ => GivenGraph(given_g(c)),
	}
}

fn gen_asgp<T, C: Choose<T>>(c: &mut C) -> q::AnySubjectGivenPredicate<T> {
	use q::*;
	match c.pick(3) {
		0 => AnySubjectGivenPredicate::AnyObject(match c.pick(4) {
			0 => AnySubjectGivenPredicateAnyObject::AnyGraph,
			1 => AnySubjectGivenPredicateAnyObject::SameAsSubject,
			2 => AnySubjectGivenPredicateAnyObject::SameAsObject,
			_ => AnySubjectGivenPredicateAnyObject::GivenGraph(given_g(c)),
		}),
		1 => AnySubjectGivenPredicate::SameAsSubject(gen_asgpgo(c)),
		_ => AnySubjectGivenPredicate::GivenObject(c.res(), gen_asgpgo(c)),
	}
}

fn gen_asgpgo<T, C: Choose<T>>(c: &mut C) -> q::AnySubjectGivenPredicateGivenObject<T> {
	use q::AnySubjectGivenPredicateGivenObject::*;
	match c.pick(3) {
		0 => AnyGraph,
		1 => SameAsSubject,
		_ => GivenGraph(given_g(c)),
	}
}

fn gen_gsapgo<T, C: Choose<T>>(c: &mut C) -> q::GivenSubjectAnyPredicateGivenObject<T> {
	use q::GivenSubjectAnyPredicateGivenObject::*;
	match c.pick(3) {
		0 => AnyGraph,
		1 => SameAsPredicate,
		_ => GivenGraph(given_g(c)),
	}
}

fn gg<T: Copy>(g: &Option<T>) -> Cn<T> {
	match g {
		None => Cn::Default,
		Some(g) => Cn::Is(*g),
	}
}

/// The constraints of a quad pattern, component by component.
pub fn parts_q<T: Copy>(p: &CanonicalQuadPattern<T>) -> [Cn<T>; 4] {
	use q::*;
	match p {
		CanonicalQuadPattern::AnySubject(r) => match r {
			AnySubject::AnyPredicate(r) => {
				let (o, g) = match r {
					AnySubjectAnyPredicate::AnyObject(g) => (
						Cn::Any,
						match g {
							AnySubjectAnyPredicateAnyObject::AnyGraph => Cn::Any,
							AnySubjectAnyPredicateAnyObject::SameAsSubject => Cn::Same(0),
							AnySubjectAnyPredicateAnyObject::SameAsPredicate => Cn::Same(1),
							AnySubjectAnyPredicateAnyObject::SameAsObject => Cn::Same(2),
							AnySubjectAnyPredicateAnyObject::GivenGraph(g) => gg(g),
						},
					),
					AnySubjectAnyPredicate::SameAsSubject(g) => (Cn::Same(0), g_asapgo(g)),
					AnySubjectAnyPredicate::SameAsPredicate(g) => (Cn::Same(1), g_asapgo(g)),
					AnySubjectAnyPredicate::GivenObject(o, g) => (Cn::Is(*o), g_asapgo(g)),
				};
				[Cn::Any, Cn::Any, o, g]
			}
			AnySubject::SameAsSubject(r) => {
				let (o, g) = og_asgp(r);
				[Cn::Any, Cn::Same(0), o, g]
			}
			AnySubject::GivenPredicate(p, r) => {
				let (o, g) = og_asgp(r);
				[Cn::Any, Cn::Is(*p), o, g]
			}
		},
		CanonicalQuadPattern::GivenSubject(s, r) => match r {
			GivenSubject::AnyPredicate(r) => {
				let (o, g) = match r {
					GivenSubjectAnyPredicate::AnyObject(g) => (
						Cn::Any,
						match g {
							GivenSubjectAnyPredicateAnyObject::AnyGraph => Cn::Any,
							GivenSubjectAnyPredicateAnyObject::SameAsPredicate => Cn::Same(1),
							GivenSubjectAnyPredicateAnyObject::SameAsObject => Cn::Same(2),
							GivenSubjectAnyPredicateAnyObject::GivenGraph(g) => gg(g),
						},
					),
					GivenSubjectAnyPredicate::SameAsPredicate(g) => (Cn::Same(1), g_gsapgo(g)),
					GivenSubjectAnyPredicate::GivenObject(o, g) => (Cn::Is(*o), g_gsapgo(g)),
				};
				[Cn::Is(*s), Cn::Any, o, g]
			}
			GivenSubject::GivenPredicate(p, r) => {
				let (o, g) = match r {
					GivenSubjectGivenPredicate::AnyObject(g) => (
						Cn::Any,
						match g {
							GivenSubjectGivenPredicateAnyObject::AnyGraph => Cn::Any,
							GivenSubjectGivenPredicateAnyObject::SameAsObject => Cn::Same(2),
							GivenSubjectGivenPredicateAnyObject::GivenGraph(g) => gg(g),
						},
					),
					GivenSubjectGivenPredicate::GivenObject(o, g) => (
						Cn::Is(*o),
						match g {
							GivenSubjectGivenPredicateGivenObject::AnyGraph => Cn::Any,
							GivenSubjectGivenPredicateGivenObject::GivenGraph(g) => gg(g),
						},
					),
				};
				[Cn::Is(*s), Cn::Is(*p), o, g]
			}
		},
	}
}

fn g_asapgo<T: Copy>(g: &q::AnySubjectAnyPredicateGivenObject<T>) -> Cn<T> {
	use q::AnySubjectAnyPredicateGivenObject::*;
	match g {
		AnyGraph => Cn::Any,
		SameAsSubject => Cn::Same(0),
		SameAsPredicate => Cn::Same(1),
		GivenGraph(g) => gg(g),
	}
}

fn g_gsapgo<T: Copy>(g: &q::GivenSubjectAnyPredicateGivenObject<T>) -> Cn<T> {
	use q::GivenSubjectAnyPredicateGivenObject::*;
	match g {
		AnyGraph => Cn::Any,
		SameAsPredicate => Cn::Same(1),
		GivenGraph(g) => gg(g),
	}
}

fn og_asgp<T: Copy>(r: &q::AnySubjectGivenPredicate<T>) -> (Cn<T>, Cn<T>) {
	use q::*;
	fn go<T: Copy>(g: &AnySubjectGivenPredicateGivenObject<T>) -> Cn<T> {
		match g {
			AnySubjectGivenPredicateGivenObject::AnyGraph => Cn::Any,
			AnySubjectGivenPredicateGivenObject::SameAsSubject => Cn::Same(0),
			AnySubjectGivenPredicateGivenObject::GivenGraph(g) => gg(g),
		}
	}
	match r {
		AnySubjectGivenPredicate::AnyObject(g) => (
			Cn::Any,
			match g {
				AnySubjectGivenPredicateAnyObject::AnyGraph => Cn::Any,
				AnySubjectGivenPredicateAnyObject::SameAsSubject => Cn::Same(0),
				AnySubjectGivenPredicateAnyObject::SameAsObject => Cn::Same(2),
				AnySubjectGivenPredicateAnyObject::GivenGraph(g) => gg(g),
			},
		),
		AnySubjectGivenPredicate::SameAsSubject(g) => (Cn::Same(0), go(g)),
		AnySubjectGivenPredicate::GivenObject(o, g) => (Cn::Is(*o), go(g)),
	}
}

/// Does the statement satisfy the constraints? (`k[3]`, the graph, is `None` for
/// the default graph.)
pub fn sat<T: PartialEq + Copy>(c: &[Cn<T>], s: T, p: T, o: T, g: Option<T>) -> bool {
	let k = [Some(s), Some(p), Some(o), g];
	let mut i = 0;
	let mut r = true;
	while i < c.len() {
		r = r
			&& match c[i] {
				Cn::Any => true,
				Cn::Same(j) => k[i] == k[j as usize],
				Cn::Is(x) => k[i] == Some(x),
				Cn::Default => k[i].is_none(),
			};
		i += 1;
	}
	r
}

pub fn sat_t<T: PartialEq + Copy>(c: &CanonicalTriplePattern<T>, s: T, p: T, o: T) -> bool {
	sat(&parts_t(c), s, p, o, None)
}

pub fn sat_q<T: PartialEq + Copy>(
	c: &CanonicalQuadPattern<T>,
	s: T,
	p: T,
	o: T,
	g: Option<T>,
) -> bool {
	sat(&parts_q(c), s, p, o, g)
}
