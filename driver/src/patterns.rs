//! C11 to C13 with every choice enumerated over small domains, and C14.
use crate::canon::Choose;
use crate::ctx::*;
use crate::palg;
use crate::stores::Pat;
use crate::{ensure, ensure_eq};
use rdf_types::pattern::TriplePatternMap;
use rdf_types::Triple;
use std::collections::{BTreeMap, BTreeSet};

/// Enumerates all sequences of choices, resources drawn from `0..n`.
struct Enum {
	n: u8,
	script: Vec<(u8, u8)>,
	pos: usize,
	picks: Vec<u8>,
	res: Vec<u8>,
}
impl Enum {
	fn step(&mut self, k: u8) -> u8 {
		let i = self.pos;
		self.pos += 1;
		if i == self.script.len() {
			self.script.push((0, k));
		}
		self.script[i].0
	}
	fn advance(&mut self) -> bool {
		self.pos = 0;
		self.picks.clear();
		self.res.clear();
		loop {
			match self.script.last_mut() {
				None => return false,
				Some(l) if l.0 + 1 < l.1 => {
					l.0 += 1;
					return true;
				}
				_ => {
					self.script.pop();
				}
			}
		}
	}
}
impl Choose<u8> for Enum {
	fn pick(&mut self, n: u8) -> u8 {
		let v = self.step(n);
		self.picks.push(v);
		v
	}
	fn res(&mut self) -> u8 {
		let v = self.step(self.n);
		self.res.push(v);
		v
	}
}

struct Rnd<'a>(&'a mut Rng, Vec<u8>);
impl Choose<u8> for Rnd<'_> {
	fn pick(&mut self, n: u8) -> u8 {
		let v = self.0.below(n as usize) as u8;
		self.1.push(v);
		v
	}
	fn res(&mut self) -> u8 {
		let n = [2, 3, 5, 256][self.0.below(4)];
		let v = self.0.below(n) as u8;
		self.1.push(v);
		v
	}
}

fn all(c: &mut Ctx, name: &str, n: u8, f: fn(&mut Enum), g: fn(&mut Rnd)) {
	let mut e = Enum {
		n,
		script: vec![],
		pos: 0,
		picks: vec![],
		res: vec![],
	};
	let mut cases = 0u64;
	c.begin(format!("{name}: enumerated choices over {n} resources"));
	let complete = loop {
		e.pos = 0;
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut e)));
		c.evals += 1;
		cases += 1;
		if let Err(p) = r {
			let m = panic_text(&p);
			let input = format!("{name}: choices {:?} with resources/variables {:?}", e.picks, e.res);
			c.violation(&input, &m);
		}
		c.note((name, &e.picks, &e.res));
		if cases % 65536 == 0 {
			c.begin(format!("{name}: enumerated choices over {n} resources, case {cases}"));
			if c.out_of_time() {
				break false;
			}
		}
		if !e.advance() {
			break true;
		}
	};
	c.scope(format!("{name}: {}{cases} choice sequences over {n} resources", if complete { "all " } else { "first " }));
	let m = c.n(20_000, 400_000);
	let mut rng = c.rng.clone();
	for _ in 0..m {
		let mut r = Rnd(&mut rng, vec![]);
		let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g(&mut r)));
		c.evals += 1;
		if let Err(p) = o {
			let m = panic_text(&p);
			let input = format!("{name}: choice sequence {:?}", r.1);
			c.violation(&input, &m);
		}
	}
	c.rng = rng;
	c.scope(format!("{name}: {m} random choice sequences over 256 resources"));
}

macro_rules! run {
	($c:expr, $n:expr, $($f:ident),*) => { $( all($c, stringify!($f), $n, palg::$f::<Enum>, |r: &mut Rnd| palg::$f(r)); )* };
}

pub fn c11(c: &mut Ctx) {
	run!(c, 2, c11_triple_pattern, c11_triple_renaming, c11_quad_renaming, c11_partial, c11_full);
	let n = if c.thorough { 3 } else { 2 };
	run!(c, n, c11_quad_pattern);
}

pub fn c12(c: &mut Ctx) {
	run!(c, 3, c12_triple, c12_role, c12_quad_read, c12_quad_map);
}

pub fn c13(c: &mut Ctx) {
	run!(c, 3, c13_subject, c13_predicate, c13_object);
}

type Assoc = BTreeMap<(Vec<u8>, Vec<u8>), BTreeSet<u8>>;

fn check_map(m: &TriplePatternMap<u8, u8>, model: &Assoc, n: u8) -> Check {
	for s in 0..n {
		for p in 0..n {
			for o in 0..n {
				let mut want: Vec<u8> = Vec::new();
				for ((picks, res), vs) in model {
					let pat = Pat {
						picks: picks.clone(),
						res: res.clone(),
					};
					if pat.matches(false, (s, p, o, None)) {
						want.extend(vs);
					}
				}
				want.sort();
				let mut got: Vec<u8> = m.get(Triple(&s, &p, &o)).copied().collect();
				got.sort();
				ensure_eq!(got, want, "values for the triple ({s}, {p}, {o})");
			}
		}
	}
	Ok(())
}

pub fn c14(c: &mut Ctx) {
	let n = 3u8;
	let pats = Pat::all(false, n);
	// every single pattern and every pair of patterns
	for (i, a) in pats.iter().enumerate() {
		for b in &pats[i..] {
			let desc = || format!("pattern map: insert {:?} -> 1, {:?} -> 2, again -> 1", a.parts(false), b.parts(false));
			c.case((a, b), &desc, || {
				let mut m: TriplePatternMap<u8, u8> = TriplePatternMap::default();
				let mut model: Assoc = BTreeMap::new();
				for (p, v) in [(a, 1u8), (b, 2), (b, 1), (a, 1), (b, 2)] {
					let new = m.insert(p.t(&|x| x), v);
					let want = model.entry((p.picks.clone(), p.res.clone())).or_default().insert(v);
					ensure_eq!(new, want, "insert {:?} -> {v} reports newness", p.parts(false));
				}
				check_map(&m, &model, n)
			});
		}
	}
	c.scope("every pair of the triple patterns over 3 resources, three values");
	let k = c.n(3000, 60000);
	for _ in 0..k {
		if c.out_of_time() {
			break;
		}
		let len = 1 + c.rng.below(12);
		let mut ops: Vec<(Pat, u8)> = Vec::new();
		for _ in 0..len {
			let p = Pat::random(&mut c.rng, false, n);
			ops.push((p, c.rng.below(3) as u8));
		}
		let split = c.rng.below(len + 1);
		let o2 = ops.clone();
		let desc = move || format!("pattern map: insert {:?}", o2.iter().map(|(p, v)| (p.parts(false), *v)).collect::<Vec<_>>());
		c.case(&ops, &desc, || {
			let mut m: TriplePatternMap<u8, u8> = TriplePatternMap::default();
			let mut model: Assoc = BTreeMap::new();
			for (p, v) in &ops {
				let new = m.insert(p.t(&|x| x), *v);
				let want = model.entry((p.picks.clone(), p.res.clone())).or_default().insert(*v);
				ensure_eq!(new, want, "insert {:?} -> {v} reports newness", p.parts(false));
			}
			check_map(&m, &model, n)?;
			merge(&ops, split, n)
		});
	}
	c.scope(format!("{k} random association sequences, merged at every level that can be merged"));
}

/// Merging is offered by the sub-maps; build two of each kind and merge them.
fn merge(ops: &[(Pat, u8)], split: usize, n: u8) -> Check {
	use rdf_types::pattern::triple::canonical::*;
	use rdf_types::pattern::triple::map::*;
	use rdf_types::pattern::CanonicalTriplePattern as P;
	macro_rules! level {
		($name:literal, $map:ty, $sel:expr) => {{
			let sel = $sel;
			let mut maps: [$map; 2] = [Default::default(), Default::default()];
			let mut model: Assoc = BTreeMap::new();
			for (i, (p, v)) in ops.iter().enumerate() {
				if let Some(rest) = sel(p.t(&|x| x)) {
					maps[(i >= split) as usize].insert(rest, *v);
					model.entry((p.picks.clone(), p.res.clone())).or_default().insert(*v);
				}
			}
			let [mut a, b] = maps;
			a.union_with(b);
			for s in 0..n {
				for p in 0..n {
					for o in 0..n {
						let mut want: Vec<u8> = Vec::new();
						for ((picks, res), vs) in &model {
							let pat = Pat { picks: picks.clone(), res: res.clone() };
							if pat.matches(false, (s, p, o, None)) {
								want.extend(vs);
							}
						}
						want.sort();
						let mut got: Vec<u8> = a.get(Triple(&s, &p, &o)).copied().collect();
						got.sort();
						ensure!(
							got == want,
							"{}: after merging the first {split} associations with the rest, values for ({s}, {p}, {o}) are {got:?}, expected {want:?}",
							$name
						);
					}
				}
			}
		}};
	}
	// the sub-maps ignore the components fixed above them, so only patterns whose
	// upper components are unconstrained (or the map's own) are compared
	level!("AnySubjectMap", AnySubjectMap<u8, u8>, |p| match p {
		P::AnySubject(r) => Some(r),
		_ => None,
	});
	level!("AnySubjectAnyPredicateMap", AnySubjectAnyPredicateMap<u8, u8>, |p| match p {
		P::AnySubject(AnySubject::AnyPredicate(r)) => Some(r),
		_ => None,
	});
	merge_given(ops, split, n)
}

fn merge_given(ops: &[(Pat, u8)], split: usize, n: u8) -> Check {
	use crate::canon::{parts_t, sat, Cn};
	use rdf_types::pattern::triple::canonical::*;
	use rdf_types::pattern::triple::map::*;
	use rdf_types::pattern::CanonicalTriplePattern as P;
	// for each kind of map below a fixed component: drop that component's constraint
	macro_rules! level {
		($name:literal, $map:ty, $drop:expr, $sel:expr) => {{
			let sel = $sel;
			let mut maps: [$map; 2] = [Default::default(), Default::default()];
			let mut model: BTreeMap<Vec<(u8, u8)>, ([Cn<u8>; 3], BTreeSet<u8>)> = BTreeMap::new();
			for (i, (p, v)) in ops.iter().enumerate() {
				let x = p.t(&|x| x);
				let mut k = parts_t(&x);
				if let Some(rest) = sel(x) {
					maps[(i >= split) as usize].insert(rest, *v);
					for d in $drop {
						k[d] = Cn::Any;
					}
					let key = k
						.iter()
						.map(|c| match c {
							Cn::Any => (0, 0),
							Cn::Same(i) => (1, *i),
							Cn::Is(v) => (2, *v),
							Cn::Default => (3, 0),
						})
						.collect();
					model.entry(key).or_insert((k, BTreeSet::new())).1.insert(*v);
				}
			}
			let [mut a, b] = maps;
			a.union_with(b);
			for s in 0..n {
				for p in 0..n {
					for o in 0..n {
						let mut want: Vec<u8> = Vec::new();
						for (k, vs) in model.values() {
							if sat(k, s, p, o, None) {
								want.extend(vs);
							}
						}
						want.sort();
						let mut got: Vec<u8> = a.get(Triple(&s, &p, &o)).copied().collect();
						got.sort();
						ensure!(
							got == want,
							"{}: after merging the first {split} associations with the rest, values for ({s}, {p}, {o}) are {got:?}, expected {want:?}",
							$name
						);
					}
				}
			}
		}};
	}
	level!("GivenSubjectMap", GivenSubjectMap<u8, u8>, [0usize], |p| match p {
		P::GivenSubject(_, r) => Some(r),
		_ => None,
	});
	level!("GivenSubjectAnyPredicateMap", GivenSubjectAnyPredicateMap<u8, u8>, [0usize], |p| match p {
		P::GivenSubject(_, GivenSubject::AnyPredicate(r)) => Some(r),
		_ => None,
	});
	level!("GivenSubjectGivenPredicateMap", GivenSubjectGivenPredicateMap<u8, u8>, [0usize, 1], |p| match p {
		P::GivenSubject(_, GivenSubject::GivenPredicate(_, r)) => Some(r),
		_ => None,
	});
	level!("AnySubjectGivenPredicateMap", AnySubjectGivenPredicateMap<u8, u8>, [1usize], |p| match p {
		P::AnySubject(AnySubject::GivenPredicate(_, r)) => Some(r),
		_ => None,
	});
	Ok(())
}
