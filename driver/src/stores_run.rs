//! Histories: exhaustive small ones, then random longer ones, with shrinking.
use crate::ctx::{Check, Ctx, Rng};
use crate::stores::*;
use rdf_types::LocalTerm;

/// What to do with a history under a property.
#[derive(Clone)]
struct Case {
	kind: Kind,
	ops: Vec<Op>,
	/// Second history, compared with the first (C04).
	other: Vec<Op>,
	pats: Vec<Pat>,
	alts: Vec<Vec<Vec<u8>>>,
	alphabet: u8,
	/// Observe after every operation rather than at the end only.
	every: bool,
	terms: bool,
}

fn run_case<R: Res>(id: &str, c: &Case, rs: &[R]) -> Check {
	let mut st = St::<R>::new(c.kind);
	let n = c.ops.len();
	let probe = universe(c.kind, c.alphabet.min(3));
	for (k, op) in c.ops.iter().enumerate() {
		st.apply(op).map_err(|e| format!("at step {}: {e}", k + 1))?;
		if c.every || k + 1 == n {
			observe(id, &st, c, rs, &probe).map_err(|e| format!("after step {}: {e}", k + 1))?;
		}
	}
	if n == 0 {
		observe(id, &st, c, rs, &probe)?;
	}
	if id == "C04" {
		let mut o = St::<R>::new(c.kind);
		for op in &c.other {
			o.apply(op).map_err(|e| format!("second history: {e}"))?;
		}
		obs_pair(&st, &o)?;
		obs_clone(&st)?;
	}
	Ok(())
}

fn observe<R: Res>(id: &str, st: &St<R>, c: &Case, rs: &[R], probe: &[Q]) -> Check {
	match id {
		"C01" | "C02" => obs_set(st, probe),
		"C03" => obs_enum(st),
		"C04" => obs_sorted(st),
		"C05" => {
			for p in &c.pats {
				obs_match(st, p, rs)?;
			}
			Ok(())
		}
		"C06" => {
			for (p, a) in c.pats.iter().zip(&c.alts) {
				obs_multi(st, p, a, rs)?;
			}
			Ok(())
		}
		"C10" => {
			obs_generic(st, c.alphabet.min(4) + 1, rs)?;
			for p in &c.pats {
				obs_generic_pattern(st, p, rs)?;
			}
			Ok(())
		}
		_ => {
			obs_set(st, probe)?;
			obs_enum(st)?;
			obs_sorted(st)?;
			for p in &c.pats {
				obs_match(st, p, rs)?;
			}
			Ok(())
		}
	}
}

fn universe(k: Kind, n: u8) -> Vec<Q> {
	let mut v = Vec::new();
	let gs: Vec<Option<u8>> = if k.is_graph() {
		vec![None]
	} else {
		std::iter::once(None).chain((0..n).map(Some)).collect()
	};
	for s in 0..n {
		for p in 0..n {
			for o in 0..n {
				for g in &gs {
					v.push((s, p, o, *g));
				}
			}
		}
	}
	v
}

fn kinds(id: &str) -> Vec<Kind> {
	match id {
		"C01" => vec![Kind::G, Kind::IG],
		"C02" => vec![Kind::D, Kind::ID],
		"C05" => vec![Kind::IG, Kind::ID],
		"C06" | "C07" | "C08" => vec![Kind::ID],
		"C09" => vec![Kind::G, Kind::D],
		"C10" => vec![Kind::G, Kind::IG, Kind::D, Kind::ID],
		_ => vec![Kind::G, Kind::IG, Kind::D, Kind::ID],
	}
}

fn desc(id: &str, c: &Case) -> String {
	let mut s = format!(
		"{} resources: {:?} from empty, ops {:?}",
		if c.terms { "term" } else { "numbered" },
		c.kind,
		c.ops
			.iter()
			.map(|o| match o {
				Op::Extr(p, k) => format!("Extract[{}] steps={k:?}", show_parts(&p.parts(true))),
				o => format!("{o:?}"),
			})
			.collect::<Vec<_>>()
	);
	if id == "C04" {
		s.push_str(&format!("; second history {:?}", c.other));
	}
	if !c.pats.is_empty() && c.pats.len() <= 2 {
		s.push_str(&format!("; patterns {:?}", c.pats.iter().map(|p| show_parts(&p.parts(!c.kind.is_graph() || id == "C10"))).collect::<Vec<_>>()));
	}
	if !c.alts.is_empty() && c.alts.len() <= 2 {
		s.push_str(&format!("; alternatives {:?}", c.alts));
	}
	s
}

fn exec(c: &mut Ctx, case: &Case, rs: &[Num], ts: &[LocalTerm]) {
	let id = c.id.clone();
	let d = || desc(&id, case);
	c.note((&case.ops, case.kind));
	if c.samples.len() < 6 && c.evals % 4099 == 17 {
		c.samples.push(d());
	}
	let one = |k: &Case| {
		if k.terms {
			run_case(&id, k, ts)
		} else {
			run_case(&id, k, rs)
		}
	};
	let r = c.try_case(&d, || one(case));
	if let Err(what) = r {
		// Greedy shrinking of ops, second history and patterns.
		let mut best = case.clone();
		let mut best_what = what;
		let mut progress = true;
		let mut rounds = 0;
		while progress && rounds < 400 {
			progress = false;
			rounds += 1;
			let mut cands: Vec<Case> = Vec::new();
			let n = best.ops.len();
			let mut chunk = n / 2;
			while chunk >= 1 {
				let mut i = 0;
				while i + chunk <= n {
					let mut k = best.clone();
					k.ops.drain(i..i + chunk);
					cands.push(k);
					i += chunk;
				}
				chunk /= 2;
			}
			for i in 0..best.other.len() {
				let mut k = best.clone();
				k.other.remove(i);
				cands.push(k);
			}
			if best.pats.len() > 1 {
				for i in 0..best.pats.len() {
					let mut k = best.clone();
					k.pats = vec![best.pats[i].clone()];
					if !best.alts.is_empty() {
						k.alts = vec![best.alts[i].clone()];
					}
					cands.push(k);
				}
			}
			for k in cands {
				if let Err(w) = c.try_case(&d, || one(&k)) {
					best = k;
					best_what = w;
					progress = true;
					break;
				}
			}
		}
		c.violation(&desc(&id, &best), &best_what)
	}
}

fn random_ops(rng: &mut Rng, id: &str, kind: Kind, n: u8, len: usize) -> Vec<Op> {
	let q = |rng: &mut Rng| -> Q {
		let mut r = || rng.below(n as usize) as u8;
		let (s, p, o, g) = (r(), r(), r(), r());
		// Repeat components now and then.
		let p = if rng.chance(1, 6) { s } else { p };
		let o = if rng.chance(1, 6) { s } else { o };
		let g = if rng.chance(1, 3) { None } else if rng.chance(1, 6) { Some(s) } else { Some(g) };
		(s, p, o, g)
	};
	let mut live: Vec<Q> = Vec::new();
	let mut ops = Vec::new();
	let drain = rng.chance(1, 4);
	for k in 0..len {
		let removing = if drain && k * 2 > len { 8 } else { 4 };
		let roll = rng.below(20);
		if roll < 12 - removing / 2 {
			let x = q(rng);
			live.push(x);
			ops.push(if id == "C10" && rng.chance(1, 3) { Op::TIns(x) } else { Op::Ins(x) });
		} else if roll < 12 + removing / 2 {
			let x = if !live.is_empty() && rng.chance(4, 5) {
				let i = rng.below(live.len());
				live.swap_remove(i)
			} else {
				q(rng)
			};
			ops.push(if id == "C10" && rng.chance(1, 3) { Op::TRem(x) } else { Op::Rem(x) });
		} else {
			match id {
				"C07" => ops.push(Op::Extr(
					Pat::random(rng, true, n + 1),
					if rng.chance(1, 2) { None } else { Some(rng.below(4)) },
				)),
				"C08" => ops.push(Op::RmG(if rng.chance(1, 3) { None } else { Some(rng.below(n as usize + 1) as u8) })),
				"C09" => ops.push(Op::Idx),
				"C03" if kind == Kind::ID && rng.chance(1, 2) => {
					if rng.chance(1, 2) {
						ops.push(Op::RmG(if rng.chance(1, 2) { None } else { Some(rng.below(n as usize) as u8) }))
					} else {
						ops.push(Op::Extr(Pat::random(rng, true, n), None))
					}
				}
				"C03" if rng.chance(1, 4) => ops.push(Op::Idx),
				"C04" if rng.chance(1, 2) => ops.push(Op::Clone_),
				"C01" | "C02" if rng.chance(1, 8) => {
					ops.push(Op::Collect((0..rng.below(6)).map(|_| q(rng)).collect()))
				}
				_ => {
					let v: Vec<Q> = (0..rng.below(5)).map(|_| q(rng)).collect();
					live.extend(v.iter().copied());
					ops.push(Op::Ext(v));
				}
			}
		}
	}
	ops
}

pub fn run(c: &mut Ctx) {
	let id = c.id.clone();
	let rs: Vec<Num> = (0..=255u8).map(Num::mk).collect();
	let ts: Vec<LocalTerm> = (0..=255u8).map(LocalTerm::mk).collect();
	let has_pats = matches!(id.as_str(), "C05" | "C06" | "C07" | "C08" | "C09" | "C10");

	// 1. Exhaustive histories over one or two resources.
	for kind in kinds(&id) {
		for (n, len) in [
			(1u8, if kind.is_graph() { 5 } else { 4 }),
			(2, if kind.is_graph() { if c.thorough { 4 } else { 3 } } else { if c.thorough { 3 } else { 2 } }),
		] {
			let u = universe(kind, n);
			let mut alphabet: Vec<Op> = Vec::new();
			for q in &u {
				alphabet.push(Op::Ins(*q));
				alphabet.push(Op::Rem(*q));
			}
			match id.as_str() {
				"C09" => alphabet.push(Op::Idx),
				"C08" => {
					alphabet.push(Op::RmG(None));
					for g in 0..n {
						alphabet.push(Op::RmG(Some(g)));
					}
				}
				_ => {}
			}
			let pats = if has_pats && n == 1 { Pat::all(!kind.is_graph() || id == "C10", n + 1) } else { vec![] };
			let pats_k: Vec<Pat> = if id == "C07" { pats.clone() } else { vec![] };
			let mut stack: Vec<usize> = Vec::new();
			let mut count = 0u64;
			// Odometer over histories of exactly `len` operations; every prefix is
			// observed because observation happens after every operation.
			stack.resize(len, 0);
			'h: loop {
				let ops: Vec<Op> = stack.iter().map(|i| alphabet[*i].clone()).collect();
				count += 1;
				let mut case = Case {
					kind,
					ops: ops.clone(),
					other: vec![],
					pats: vec![],
					alts: vec![],
					alphabet: n,
					every: false,
					terms: false,
				};
				if id == "C04" {
					let k = c.rng.below(len + 1);
					case.other = (0..k).map(|_| alphabet[c.rng.below(alphabet.len())].clone()).collect();
					if c.rng.chance(1, 2) {
						case.other = ops.iter().rev().cloned().collect();
					}
				}
				if has_pats && id != "C07" {
					for _ in 0..3 {
						case.pats.push(Pat::random(&mut c.rng, !kind.is_graph() || id == "C10", n + 1));
						case.alts.push((0..4).map(|_| (0..c.rng.below(4)).map(|_| c.rng.below(n as usize + 1) as u8).collect()).collect());
					}
				}
				if id == "C07" {
					let p = if pats_k.is_empty() { Pat::random(&mut c.rng, true, n) } else { pats_k[c.rng.below(pats_k.len())].clone() };
					let steps = if c.rng.chance(1, 2) { None } else { Some(c.rng.below(3)) };
					let at = c.rng.below(len + 1);
					case.ops.insert(at, Op::Extr(p, steps));
				}
				exec(c, &case, &rs, &ts);
				for i in (0..len).rev() {
					stack[i] += 1;
					if stack[i] < alphabet.len() {
						continue 'h;
					}
					stack[i] = 0;
				}
				break;
			}
			c.scope(format!("{kind:?}: all {count} histories of {len} operations over {n} resource(s)"));
			if c.out_of_time() {
				c.scope("time budget reached during exhaustive phase");
				break;
			}
		}
	}

	// 2. All patterns on random states of small scope.
	if has_pats {
		let rounds = c.n(6, 60);
		for _ in 0..rounds {
			for kind in kinds(&id) {
				let quad = !kind.is_graph() || id == "C10";
				let n = 2;
				let len = 4 + c.rng.below(14);
				let mut ops = random_ops(&mut c.rng, &id, kind, n, len);
				if id == "C09" {
					ops.push(Op::Idx);
				}
				let pats = Pat::all(quad, n + 1);
				let alts = pats
					.iter()
					.map(|p| p.res.iter().map(|r| if c.rng.chance(1, 8) { vec![] } else { (0..1 + c.rng.below(3)).map(|_| c.rng.below(n as usize + 1) as u8).chain([*r]).collect() }).collect())
					.collect();
				let case = Case { kind, ops, other: vec![], pats, alts, alphabet: n, every: false, terms: false };
				exec(c, &case, &rs, &ts);
			}
		}
		c.scope(format!("every canonical pattern over 3 resources on {rounds} random states per store kind"));
	}

	// 3. Random histories.
	let total = c.n(6000, 60000);
	let mut done = 0;
	for r in 0..total {
		if c.out_of_time() {
			break;
		}
		done += 1;
		let ks = kinds(&id);
		let kind = ks[r % ks.len()];
		let n = [1u8, 2, 2, 3, 3, 4, 5, 8][c.rng.below(8)];
		let len = match c.rng.below(40) {
			0 => 100 + c.rng.below(300),
			1..=10 => 20 + c.rng.below(40),
			_ => 1 + c.rng.below(20),
		};
		let mut ops = random_ops(&mut c.rng, &id, kind, n, len);
		if id == "C09" && c.rng.chance(2, 3) {
			let at = c.rng.below(ops.len() + 1);
			ops.insert(at, Op::Idx);
		}
		let mut case = Case {
			kind,
			other: vec![],
			pats: vec![],
			alts: vec![],
			alphabet: n,
			every: len <= 40 && c.rng.chance(1, 2),
			terms: c.rng.chance(1, 8),
			ops,
		};
		if case.terms {
			case.every = false;
		}
		if id == "C04" {
			case.other = match c.rng.below(4) {
				0 => random_ops(&mut c.rng, &id, kind, n, len),
				1 => {
					let mut v = case.ops.clone();
					if !v.is_empty() {
						let i = c.rng.below(v.len());
						v.remove(i);
					}
					v
				}
				2 => {
					// Same content, other history: insert the final model in another order.
					let mut st = St::<Num>::new(kind);
					let mut ok = true;
					for o in &case.ops {
						ok &= std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| st.apply(o))).is_ok_and(|r| r.is_ok());
					}
					let mut v: Vec<Op> = if ok { st.m.iter().rev().map(|q| Op::Ins(*q)).collect() } else { vec![] };
					let k = v.len();
					for i in 0..k {
						let j = c.rng.below(k);
						v.swap(i, j);
					}
					v
				}
				_ => case.ops.clone(),
			};
		}
		if has_pats {
			for _ in 0..6 {
				let p = Pat::random(&mut c.rng, !kind.is_graph() || id == "C10", n + 1);
				let a = p.res.iter().map(|r| if c.rng.chance(1, 8) { vec![] } else { (0..c.rng.below(4)).map(|_| c.rng.below(n as usize + 1) as u8).chain([*r]).collect() }).collect();
				case.pats.push(p);
				case.alts.push(a);
			}
		}
		exec(c, &case, &rs, &ts);
	}
	c.scope(format!("{done} random histories of 1 to 400 operations over 1 to 8 resources, numbered and term resources"));

	// 4. A few large stores, with tree and slab growth.
	for r in 0..c.n(6, 30) {
		if c.out_of_time() {
			break;
		}
		let ks = kinds(&id);
		let kind = ks[r % ks.len()];
		let n = [12u8, 40, 120][c.rng.below(3)];
		let len = c.n(1500, 4000);
		let mut ops = random_ops(&mut c.rng, &id, kind, n, len);
		if id == "C09" {
			let at = len / 2 + c.rng.below(len / 2);
			ops.insert(at, Op::Idx);
		}
		let mut case = Case { kind, ops, other: vec![], pats: vec![], alts: vec![], alphabet: n, every: false, terms: false };
		if id == "C04" {
			case.other = case.ops.clone();
		}
		if has_pats {
			for _ in 0..40 {
				let p = Pat::random(&mut c.rng, !kind.is_graph() || id == "C10", n + 1);
				let a = p.res.iter().map(|r| (0..c.rng.below(8)).map(|_| c.rng.below(n as usize + 1) as u8).chain([*r]).collect()).collect();
				case.pats.push(p);
				case.alts.push(a);
			}
		}
		exec(c, &case, &rs, &ts);
	}
	c.scope("large random histories (1500 to 4000 operations, 12 to 120 resources)");
}
