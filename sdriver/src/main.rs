//! C23: values serialised with serde and read back, through a self-describing text format (JSON, from text, from a
//! reader and from a tree) and a length-prefixed binary one (bincode). Built with the crate's `serde` feature.
mod ctx;
use ctx::*;
use rdf_types::dataset::*;
use rdf_types::pattern::ResourceOrVar;
use rdf_types::*;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeSet;
use std::fmt::Debug;

const BASE: &[(u32, u32)] = &[
	(0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D),
	(0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF),
];
const EXTRA: &[(u32, u32)] = &[(0x2D, 0x2D), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];
fn within(c: char, t: &[(u32, u32)]) -> bool {
	t.iter().any(|&(a, b)| a <= c as u32 && c as u32 <= b)
}
fn g_u(c: char) -> bool {
	within(c, BASE) || c == '_' || c == ':'
}
fn g_pn(c: char) -> bool {
	g_u(c) || within(c, EXTRA)
}
fn grammar(s: &str) -> bool {
	let v: Vec<char> = s.chars().collect();
	if v.len() < 3 || v[0] != '_' || v[1] != ':' {
		return false;
	}
	let (first, rest) = (v[2], &v[3..]);
	(g_u(first) || first.is_ascii_digit())
		&& (rest.is_empty() || (g_pn(rest[rest.len() - 1]) && rest.iter().all(|&c| g_pn(c) || c == '.')))
}

/// Reads back what was written through every route of the JSON format.
fn json<W: Serialize + ?Sized, T: DeserializeOwned>(w: &W) -> Result<Vec<(&'static str, T)>, String> {
	let s = serde_json::to_string(w).map_err(|e| format!("cannot be serialised: {e}"))?;
	let v = serde_json::to_value(w).map_err(|e| format!("cannot be serialised to a tree: {e}"))?;
	let e = |r: &str, e: serde_json::Error| format!("does not read back {r}: {e} ({s})");
	Ok(vec![
		("from text", serde_json::from_str(&s).map_err(|x| e("from text", x))?),
		("from a reader", serde_json::from_reader(s.as_bytes()).map_err(|x| e("from a reader", x))?),
		("from a tree", serde_json::from_value(v).map_err(|x| e("from a tree", x))?),
	])
}
fn back<W: Serialize + ?Sized, T: DeserializeOwned + PartialEq + Debug>(w: &W, t: &T) -> Check {
	for (r, x) in json::<W, T>(w)? {
		ensure!(x == *t, "reads back {r} as {x:?}, not {t:?}");
	}
	Ok(())
}
fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(t: &T) -> Check {
	back(t, t)
}
fn bin<T: Serialize + DeserializeOwned>(t: &T) -> Result<T, String> {
	let b = bincode::serialize(t).map_err(|e| format!("cannot be serialised (bincode): {e}"))?;
	let mut rest = &b[..];
	let x = bincode::deserialize_from(&mut rest).map_err(|e| format!("does not read back (bincode): {e}"))?;
	ensure!(rest.is_empty(), "reading back (bincode) leaves {} bytes", rest.len());
	Ok(x)
}

fn texts() -> Vec<&'static str> {
	vec!["", "a", "_:a", "http://a.b/c", "\"\\\n\r\t\u{0}\u{7f}", "é\u{10000}", "null", "{\"value\":1}", "Any", "@en"]
}
fn types() -> Vec<LiteralType> {
	let mut r = Vec::new();
	for i in ["http://www.w3.org/2001/XMLSchema#string", "http://a.b/c?d#e", "a:", "urn:x:%41é"] {
		if let Ok(i) = iref::IriBuf::new(i.to_string()) {
			r.push(LiteralType::Any(i));
		}
	}
	for t in ["en", "EN-us", "x-a", "de-Latn-DE-1996"] {
		if let Ok(t) = langtag::LangTagBuf::new(t.to_string()) {
			r.push(LiteralType::LangString(t));
		}
	}
	r
}
fn exact_type(a: &LiteralType, b: &LiteralType) -> bool {
	match (a, b) {
		(LiteralType::Any(a), LiteralType::Any(b)) => a.as_str() == b.as_str(),
		(LiteralType::LangString(a), LiteralType::LangString(b)) => a.as_str() == b.as_str(),
		_ => false,
	}
}
fn pool() -> Vec<LocalTerm> {
	let mut r = Vec::new();
	for b in ["_:a", "_:0", "_:a.b-c", "_:é", "_::"] {
		r.push(LocalTerm::Anonymous(BlankIdBuf::new(b.to_string()).unwrap()));
	}
	for i in ["http://a.b/c", "a:", "urn:x:%41é?q#f", "x:_:a"] {
		r.push(LocalTerm::iri(iref::IriBuf::new(i.to_string()).unwrap()));
	}
	for v in texts() {
		for t in types() {
			r.push(LocalTerm::literal(Literal::new(v.to_string(), t)));
		}
	}
	r
}

fn check_term(t: &LocalTerm) -> Check {
	same(t)?;
	match t {
		LocalTerm::Anonymous(b) => {
			same(b)?;
			let x: BlankIdBuf = bin(b)?;
			ensure_eq!(x, *b, "through bincode");
		}
		LocalTerm::Named(t) => {
			same(t)?;
			if let Term::Literal(l) = t {
				same(l)?;
				same(&l.type_)?;
				back(&l.as_ref(), l)?;
				back(&l.as_cow(), l)?;
				back(&l.clone().into_cow(), l)?;
				back(&l.type_.as_ref(), &l.type_)?;
				back(&l.type_.as_cow(), &l.type_)?;
				let x: Literal = bin(l)?;
				ensure!(x.value == l.value && exact_type(&x.type_, &l.type_), "{l:?} reads back through bincode as {x:?}");
				for (r, x) in json::<_, Literal>(l)? {
					ensure!(x.value == l.value && exact_type(&x.type_, &l.type_), "{l:?} reads back {r} as {x:?}");
				}
			}
		}
	}
	Ok(())
}
fn blank(s: &str) -> Check {
	let ok = grammar(s);
	let t = serde_json::to_string(s).unwrap();
	let rs: Vec<(&str, Result<BlankIdBuf, String>)> = vec![
		("text", serde_json::from_str(&t).map_err(|e| e.to_string())),
		("a reader", serde_json::from_reader(t.as_bytes()).map_err(|e| e.to_string())),
		("a tree", serde_json::from_value(serde_json::Value::String(s.into())).map_err(|e| e.to_string())),
		("bincode", bincode::deserialize(&bincode::serialize(s).unwrap()).map_err(|e| e.to_string())),
		("a borrowed str", serde::Deserialize::deserialize(serde::de::value::BorrowedStrDeserializer::<serde::de::value::Error>::new(s)).map_err(|e| e.to_string())),
	];
	for (w, r) in rs {
		match r {
			Ok(b) => {
				ensure!(ok, "an invalid blank node identifier is accepted from {w}");
				ensure_eq!(b.as_str(), s, "what is read from {}", w);
			}
			Err(e) => ensure!(!ok, "a valid blank node identifier is rejected from {w}: {e}"),
		}
	}
	Ok(())
}

trait Res: Clone + Ord + Debug + std::hash::Hash + Serialize + DeserializeOwned {
	const BIN: bool;
}
impl Res for LocalTerm {
	const BIN: bool = false;
}
impl Res for u8 {
	const BIN: bool = true;
}
impl Res for String {
	const BIN: bool = true;
}
type Q<R> = Quad<R, R, R, R>;
/// A history of insertions and removals, the stores it makes, and what they hold.
fn stores<R: Res>(hist: &[(bool, Q<R>)], extra: &Q<R>) -> Check {
	let mut g = BTreeGraph::<R>::new();
	let mut ig = IndexedBTreeGraph::<R>::new();
	let mut d = BTreeDataset::<R>::new();
	let mut id = IndexedBTreeDataset::<R>::new();
	let mut ts: BTreeSet<Triple<R, R, R>> = BTreeSet::new();
	let mut qs: BTreeSet<Q<R>> = BTreeSet::new();
	for (add, q) in hist {
		let t = Triple(q.0.clone(), q.1.clone(), q.2.clone());
		if *add {
			g.insert(t.clone());
			ig.insert(t.clone());
			d.insert(q.clone());
			id.insert(q.clone());
			ts.insert(t);
			qs.insert(q.clone());
		} else {
			g.remove(t.as_ref());
			ig.remove(t.as_ref());
			d.remove(q.as_ref());
			id.remove(q.as_ref());
			ts.remove(&t);
			qs.remove(q);
		}
	}
	macro_rules! each {
		($name:literal, $s:expr, $ty:ty, $set:expr, $x:expr) => {{
			let mut all: Vec<(&'static str, $ty)> = json::<$ty, $ty>(&$s).map_err(|e| format!("{}: {e}", $name))?;
			if R::BIN {
				all.push(("through bincode", bin(&$s).map_err(|e| format!("{}: {e}", $name))?));
			}
			for (r, mut x) in all {
				ensure!(x == $s, "{} reads back {r} as {x:?}, not {:?}", $name, $s);
				let got: Vec<_> = x.iter().map(|s| s.cloned()).collect();
				let want: Vec<_> = $set.iter().cloned().collect();
				ensure_eq!(got, want, "{} read back {}", $name, r);
				ensure_eq!(x.len(), want.len(), "length of {} read back {}", $name, r);
				// and it goes on as a store
				let e = $x;
				let fresh = !$set.contains(&e);
				ensure_eq!(x.insert(e.clone()), fresh, "insertion into {} read back {}", $name, r);
				ensure!(x.contains(e.as_ref()), "{} read back {r} loses an insertion", $name);
			}
		}};
	}
	let et = Triple(extra.0.clone(), extra.1.clone(), extra.2.clone());
	each!("BTreeGraph", g, BTreeGraph<R>, ts, et.clone());
	each!("IndexedBTreeGraph", ig, IndexedBTreeGraph<R>, ts, et.clone());
	each!("BTreeDataset", d, BTreeDataset<R>, qs, extra.clone());
	each!("IndexedBTreeDataset", id, IndexedBTreeDataset<R>, qs, extra.clone());
	// what is written for one kind reads back as another
	for (r, x) in json::<_, BTreeDataset<R>>(&id)? {
		ensure!(x == d, "IndexedBTreeDataset reads back {r} as the BTreeDataset {x:?}, not {d:?}");
	}
	for (r, x) in json::<_, IndexedBTreeGraph<R>>(&g)? {
		ensure!(x == ig, "BTreeGraph reads back {r} as the IndexedBTreeGraph {x:?}, not {ig:?}");
	}
	Ok(())
}
fn histories<R: Res>(c: &mut Ctx, pool: &[R], name: &str, n: usize) {
	for _ in 0..n {
		if c.out_of_time() {
			break;
		}
		let k = 1 + c.rng.below(pool.len().min(4));
		let off = c.rng.below(pool.len());
		let sub: Vec<R> = (0..k).map(|i| pool[(off + i * 7) % pool.len()].clone()).collect();
		let len = c.rng.below(14);
		let quad = |r: &mut Rng| {
			let g = if r.chance(1, 3) { None } else { Some(r.pick(&sub).clone()) };
			Quad(r.pick(&sub).clone(), r.pick(&sub).clone(), r.pick(&sub).clone(), g)
		};
		let hist: Vec<(bool, Q<R>)> = (0..len).map(|_| (c.rng.chance(3, 4), quad(&mut c.rng))).collect();
		let e = quad(&mut c.rng);
		c.case((name, &hist), &|| format!("stores of {name} after {hist:?}"), || stores(&hist, &e));
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let mut c = Ctx::new(&a[1], a[2] == "thorough", a[3].parse().unwrap_or(1), &a[4]);
	let p = pool();
	for t in &p {
		c.case(t, &|| format!("term {t:?}"), || check_term(t));
	}
	c.scope("terms: every literal over 10 texts and 8 types, 4 IRIs, 5 blank node identifiers, and their parts, owned and borrowed");
	let alpha = ['_', ':', '.', '-', 'a', '0', 'é', '\u{b7}', ' '];
	let max = c.n(3, 5);
	let mut todo = vec![String::new()];
	while let Some(s) = todo.pop() {
		c.case(("blank", &s), &|| format!("blank node identifier {s:?}"), || blank(&s).and_then(|_| blank(&format!("_:{s}"))));
		if s.chars().count() < max {
			for ch in alpha {
				let mut t = s.clone();
				t.push(ch);
				todo.push(t);
			}
		}
	}
	c.scope(format!("blank node identifiers: every string of up to {max} characters over {alpha:?}, alone and after the mark"));
	let n = c.n(3000, 40_000);
	for _ in 0..n {
		if c.out_of_time() {
			break;
		}
		let (s, p_, o, g) = (c.rng.pick(&p).clone(), c.rng.pick(&p).clone(), c.rng.pick(&p).clone(), c.rng.pick(&p).clone());
		let g = if c.rng.chance(1, 3) { None } else { Some(g) };
		let q: Q<LocalTerm> = Quad(s.clone(), p_.clone(), o.clone(), g.clone());
		c.case(&q, &|| format!("quad {q:?}"), || {
			same(&q)?;
			same(&Triple(s.clone(), p_.clone(), o.clone()))?;
			// components of distinct types: each stays in its place
			let (a, b, d) = (s.to_string(), 7u8, o.to_string().len() as u64);
			same(&Triple(a.clone(), b, d))?;
			let m = Quad(a.clone(), b, d, g.clone());
			same(&m)?;
			let m = Quad(a, b, d, g.as_ref().map(|g| g.to_string()));
			let x: Quad<String, u8, u64, String> = bin(&m)?;
			ensure_eq!(x, m, "through bincode");
			// patterns with variables, of which one position is a variable
			let v: [ResourceOrVar<LocalTerm, String>; 2] = [ResourceOrVar::Resource(q.0.clone()), ResourceOrVar::Var(q.2.to_string())];
			for (i, j) in [(0, 1), (1, 0), (1, 1), (0, 0)] {
				same(&v[i])?;
				same(&Triple(v[i].clone(), v[j].clone(), v[1].clone()))?;
				same(&Quad(v[i].clone(), v[1].clone(), v[j].clone(), q.3.as_ref().map(|g| if i == j { ResourceOrVar::Resource(g.clone()) } else { v[1].clone() })))?;
			}
			Ok(())
		});
	}
	c.scope("random triples and quads, also of components of distinct types");
	let k = c.n(1500, 20_000);
	histories(&mut c, &p, "terms", k);
	histories(&mut c, &[0u8, 1, 2, 3, 255], "u8", k);
	let st: Vec<String> = texts().into_iter().map(String::from).collect();
	histories(&mut c, &st, "String", k);
	c.scope("the four stores of terms, u8 and String after random histories of up to 13 operations");
	c.finish();
}
