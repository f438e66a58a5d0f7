//! C15 to C19 and C22: lexical values, their text, comparisons and conversions.
use crate::ctx::*;
use crate::{ensure, ensure_eq};
use langtag::LangTagBuf;
use rdf_types::dataset::{BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph};
use rdf_types::generator::{Blank, Generator, LocalGenerator, LocalGeneratorInterpretation};
use rdf_types::interpretation::*;
use rdf_types::*;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

// ---------------------------------------------------------------- C15
/// The documented grammar, transcribed from the EBNF as range tables.
const BASE: &[(u32, u32)] = &[
	(0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
	(0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF),
	(0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF),
];
const EXTRA: &[(u32, u32)] =
	&[(0x2D, 0x2D), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];
fn within(c: char, t: &[(u32, u32)]) -> bool {
	t.iter().any(|&(a, b)| a <= c as u32 && c as u32 <= b)
}
fn g_u(c: char) -> bool {
	within(c, BASE) || c == '_' || c == ':'
}
fn g_pn(c: char) -> bool {
	g_u(c) || within(c, EXTRA)
}
pub fn grammar(s: &str) -> bool {
	let v: Vec<char> = s.chars().collect();
	if v.len() < 3 || v[0] != '_' || v[1] != ':' {
		return false;
	}
	let body = &v[2..];
	let first = g_u(body[0]) || ('0'..='9').contains(&body[0]);
	let rest = &body[1..];
	first
		&& (rest.is_empty()
			|| (g_pn(rest[rest.len() - 1]) && rest[..rest.len() - 1].iter().all(|&c| g_pn(c) || c == '.')))
}

fn check_blank(s: &str) -> Check {
	let ok = grammar(s);
	match BlankId::new(s) {
		Ok(b) => {
			ensure!(ok, "BlankId::new accepts a string outside the grammar");
			ensure_eq!(b.as_str(), s, "as_str");
			ensure_eq!(&**b, s, "deref");
			ensure_eq!(b.suffix(), &s[2..], "suffix");
			ensure_eq!(b.to_string(), s, "display");
			let o = b.to_owned();
			ensure_eq!(o.as_str(), s, "to_owned");
			ensure!(*b == *s && o == *b && b == &o && o == b, "blank id comparisons");
			let r: &BlankId = o.as_ref();
			ensure_eq!(r.as_str(), s, "as_ref");
			ensure_eq!(o.as_blank_id_ref().as_str(), s, "as_blank_id_ref");
			ensure_eq!(AsRef::<str>::as_ref(&o), s, "as_ref str");
			ensure_eq!(AsRef::<[u8]>::as_ref(&o), s.as_bytes(), "as_ref bytes");
		}
		Err(InvalidBlankId(e)) => {
			ensure!(!ok, "BlankId::new rejects a string of the grammar");
			ensure_eq!(e, s, "rejected input");
		}
	}
	match BlankIdBuf::new(s.to_owned()) {
		Ok(b) => {
			ensure!(ok, "BlankIdBuf::new accepts a string outside the grammar");
			ensure_eq!(b.as_str(), s, "owned as_str");
			ensure_eq!(b.suffix(), &s[2..], "owned suffix");
			ensure_eq!(b.to_string(), s, "owned display");
		}
		Err(InvalidBlankId(e)) => {
			ensure!(!ok, "BlankIdBuf::new rejects a string of the grammar");
			ensure_eq!(e.as_str(), s, "owned rejected input");
		}
	}
	match BlankIdBuf::from_str(s) {
		Ok(b) => {
			ensure!(ok, "from_str accepts a string outside the grammar");
			ensure_eq!(b.as_str(), s, "from_str as_str");
		}
		Err(InvalidBlankId(e)) => {
			ensure!(!ok, "from_str rejects a string of the grammar");
			ensure_eq!(e.as_str(), s, "from_str rejected input");
		}
	}
	let full = format!("_:{s}");
	let fok = grammar(&full);
	match BlankIdBuf::from_suffix(s) {
		Ok(b) => {
			ensure!(fok, "from_suffix accepts an illegal suffix");
			ensure_eq!(b.as_str(), full.as_str(), "from_suffix as_str");
			ensure_eq!(b.suffix(), s, "from_suffix suffix");
		}
		Err(InvalidBlankId(e)) => {
			ensure!(!fok, "from_suffix rejects a legal suffix");
			ensure_eq!(e, full, "from_suffix rejected input");
		}
	}
	Ok(())
}

pub fn c15(c: &mut Ctx) {
	// every character, in every role
	for x in 0..=0x10FFFFu32 {
		let Some(ch) = char::from_u32(x) else { continue };
		let ss = [
			format!("_:{ch}"), format!("_:a{ch}"), format!("_:a{ch}b"), format!("_:{ch}."), format!("{ch}:a"),
			format!("_{ch}a"),
		];
		let desc = || format!("strings made with U+{x:04X}: {ss:?}");
		c.case(x, &desc, || {
			for s in &ss {
				check_blank(s).map_err(|e| format!("{s:?}: {e}"))?;
			}
			Ok(())
		});
	}
	c.scope("every Unicode scalar value as first, later, middle, dot-preceding and mark character");
	let alpha = ['_', ':', '.', '-', 'a', '0', 'é', '\u{b7}', ' ', '\u{300}', '\u{d7}'];
	let max = c.n(5, 6);
	let mut idx = vec![0usize; 0];
	loop {
		let s: String = idx.iter().map(|&i| alpha[i]).collect();
		c.case(&s, &|| format!("{s:?}"), || {
			check_blank(&s)?;
			check_blank(&format!("_:{s}"))
		});
		let mut k = idx.len();
		loop {
			if k == 0 {
				idx = vec![0; idx.len() + 1];
				break;
			}
			k -= 1;
			idx[k] += 1;
			if idx[k] < alpha.len() {
				break;
			}
			idx[k] = 0;
		}
		if idx.len() > max {
			break;
		}
	}
	c.scope(format!("every string of up to {max} characters over {alpha:?}, alone and after the mark"));
	let n = c.n(100_000, 1_000_000);
	for _ in 0..n {
		if c.out_of_time() {
			break;
		}
		let len = c.rng.below(40);
		let mut s = String::new();
		if c.rng.chance(9, 10) {
			s.push_str("_:");
		}
		for _ in 0..len {
			let ch = if c.rng.chance(4, 5) {
				*c.rng.pick(&alpha[..8])
			} else {
				let (a, b) = *c.rng.pick(BASE);
				let d = c.rng.below(3) as u32;
				let x = match c.rng.below(4) {
					0 => a.saturating_sub(d),
					1 => b + d,
					2 => a + d,
					_ => b.saturating_sub(d),
				};
				char::from_u32(x).unwrap_or('!')
			};
			s.push(ch);
		}
		c.case(&s, &|| format!("{s:?}"), || check_blank(&s));
	}
}

// ---------------------------------------------------------------- C16
fn decimal(mut i: u128) -> String {
	let mut d = Vec::new();
	loop {
		d.push(b'0' + (i % 10) as u8);
		i /= 10;
		if i == 0 {
			break;
		}
	}
	d.reverse();
	String::from_utf8(d).unwrap()
}
fn check_num(b: BlankIdBuf, i: u128) -> Check {
	ensure_eq!(b.as_str(), format!("_:{}", decimal(i)), "identifier of {i}");
	ensure!(grammar(b.as_str()), "generated identifier {:?} is not valid", b.as_str());
	Ok(())
}
fn check_generator(prefix: &str, offset: usize, calls: usize) -> Check {
	let mut seen = HashSet::new();
	let mut g = Blank::new_full(prefix.to_owned(), offset);
	ensure_eq!(g.prefix(), prefix, "prefix");
	ensure_eq!(g.count(), offset, "count");
	for k in 0..calls {
		let want = offset.checked_add(k);
		let last = offset.checked_add(k + 1).is_none();
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
			if k % 2 == 0 {
				g.next_blank_id()
			} else {
				match (&mut g).next_local_term() {
					LocalTerm::Anonymous(b) => b,
					_ => panic!("not a blank node"),
				}
			}
		}));
		match r {
			Err(e) => {
				let t = panic_text(&e);
				ensure!(last, "panicked with identifiers left: {t}");
				return Ok(());
			}
			Ok(b) => {
				ensure!(grammar(b.as_str()), "generated identifier {:?} is not valid", b.as_str());
				ensure!(seen.insert(b.as_str().to_owned()), "identifier {:?} was returned twice", b.as_str());
				let Some(n) = want else {
					return Err("the generator went past the last number".into());
				};
				ensure_eq!(b.as_str(), format!("_:{prefix}{}", decimal(n as u128)), "call {k}");
				if !last {
					ensure_eq!(g.count(), n + 1, "count after call {k}");
				}
			}
		}
	}
	Ok(())
}
pub fn c16(c: &mut Ctx) {
	for i in 0..=u8::MAX {
		c.case(("u8", i), &|| format!("from_u8({i})"), || check_num(BlankIdBuf::from_u8(i), i as u128));
	}
	for i in 0..=u16::MAX {
		c.case(("u16", i), &|| format!("from_u16({i})"), || check_num(BlankIdBuf::from_u16(i), i as u128));
	}
	let mut nums: Vec<u64> = (0..64)
		.flat_map(|b| {
			let x = 1u64 << b;
			[x.wrapping_sub(1), x, x.wrapping_add(1), !x, !x.wrapping_sub(1)]
		})
		.chain((0..20).flat_map(|p| {
			let x = 10u64.checked_pow(p).unwrap_or(u64::MAX);
			[x - 1, x, x.wrapping_add(1)]
		}))
		.collect();
	let n = c.n(20_000, 2_000_000);
	for _ in 0..n {
		let s = c.rng.below(64);
		nums.push(c.rng.next() >> s);
	}
	for i in nums {
		c.case(("u64", i), &|| format!("from_u64/from_u32({i})"), || {
			check_num(BlankIdBuf::from_u64(i), i as u128)?;
			check_num(BlankIdBuf::from_u32(i as u32), (i as u32) as u128)
		});
	}
	c.scope("from_u8/from_u16 for every number; from_u32/from_u64 at bit and decimal boundaries and random");
	for prefix in ["", "b", "_", ":", "0", "a.", "a.b-", "é", "x·", "\u{2040}".trim_start_matches('\u{2040}'), "a..", "9"] {
		for offset in [0usize, 1, 9, 10, 99, 255, 65535, u32::MAX as usize, usize::MAX - 5, usize::MAX - 1, usize::MAX] {
			let calls = if offset > usize::MAX - 10 { 12 } else { c.n(300, 3000) };
			c.case((prefix, offset), &|| format!("Blank::new_full({prefix:?}, {offset}), {calls} calls"), || {
				check_generator(prefix, offset, calls)
			});
		}
	}
	c.case("ctor", &|| "constructors".into(), || {
		ensure_eq!((Blank::new().prefix().to_owned(), Blank::new().count()), (String::new(), 0), "new");
		let mut d = Blank::default();
		ensure_eq!(d.next_blank_id().to_string(), "_:0", "default");
		let mut o = Blank::new_with_offset(7);
		ensure_eq!(o.next_blank_id().to_string(), "_:7", "offset");
		let mut p = Blank::new_with_prefix("z".into());
		ensure_eq!(p.next_blank_id().to_string(), "_:z0", "prefix");
		ensure_eq!(p.next_blank_id().to_string(), "_:z1", "prefix");
		Ok(())
	});
	c.scope("generators with legal prefixes, offsets up to the last number, run to exhaustion at the top");
}

// ---------------------------------------------------------------- values
fn iris(c: &mut Ctx) -> IriBuf {
	let pool = [
		"http://example.org/a", "http://example.org/b", "http://example.org/%61", "urn:x", "a:", "http://é.org/ü?q=1#f",
		"http://www.w3.org/2001/XMLSchema#string", "http://www.w3.org/2001/XMLSchema#strin%67",
		"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "http://www.w3.org/2001/XMLSchema#integer", "HTTP://example.org/a",
		"http://example.org/a#", "http://example.org/a?", "http://example.org",
	];
	if c.rng.chance(1, 6) {
		let alphabet = ["a", "b", "/", "%20", "é", ".", "-", "~", "'", "(", ")", "*", "𝒳", "%c3%a9"];
		let n = c.rng.below(8);
		let mut s = "urn:".to_owned();
		for _ in 0..n {
			let x = *c.rng.pick(&alphabet);
			s.push_str(x);
		}
		return IriBuf::new(s).unwrap_or_else(|_| IriBuf::new("urn:z".to_owned()).unwrap());
	}
	IriBuf::new(c.rng.pick(&pool).to_string()).unwrap()
}
fn blanks(c: &mut Ctx) -> BlankIdBuf {
	let pool = ["_:a", "_:b", "_:0", "_:a.b", "_::", "__".trim(), "_:é·"];
	BlankIdBuf::new(c.rng.pick(&pool).to_string()).unwrap_or_else(|_| BlankIdBuf::from_u8(3))
}
fn strings(c: &mut Ctx) -> String {
	let alphabet = [
		"\"", "\\", "\n", "\r", "\t", "a", "b", "n", "^^", "@", "<", ">", "_:a", "é", "𝒳", " ", ".", "\u{0}", "\u{7f}", "'", "\u{2028}",
		"\u{85}", "\u{c}",
	];
	let n = [0, 1, 1, 2, 2, 3, 4, 9][c.rng.below(8)];
	(0..n).map(|_| *c.rng.pick(&alphabet)).collect()
}
fn ltype(c: &mut Ctx) -> LiteralType {
	if c.rng.chance(1, 3) {
		let t = *c.rng.pick(&["en", "EN", "en-US", "en-us", "fr", "zh-Hant", "x-private", "de-DE-u-co-phonebk"]);
		LiteralType::LangString(LangTagBuf::new(t.to_owned()).unwrap())
	} else {
		LiteralType::Any(iris(c))
	}
}
fn literals(c: &mut Ctx) -> Literal {
	let v = strings(c);
	Literal::new(v, ltype(c))
}
fn terms(c: &mut Ctx) -> Term {
	if c.rng.chance(1, 3) {
		Term::Iri(iris(c))
	} else {
		Term::Literal(literals(c))
	}
}
fn locals(c: &mut Ctx) -> LocalTerm {
	if c.rng.chance(1, 3) {
		LocalTerm::Anonymous(blanks(c))
	} else {
		LocalTerm::Named(terms(c))
	}
}
fn ids(c: &mut Ctx) -> Id {
	if c.rng.chance(1, 2) {
		Id::BlankId(blanks(c))
	} else {
		Id::Iri(iris(c))
	}
}
fn h<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut s = DefaultHasher::new();
	t.hash(&mut s);
	s.finish()
}
/// A textual key in which exactly identical values coincide.
fn key_iri(i: &Iri) -> String {
	format!("<{}>", i.as_str())
}
fn key_lt(t: LiteralTypeRef) -> String {
	match t {
		LiteralTypeRef::Any(i) => format!("^^{}", key_iri(i)),
		LiteralTypeRef::LangString(l) => format!("@{}", l.as_str()),
	}
}
fn key_lit(l: LiteralRef) -> String {
	format!("{:?}{}", l.value, key_lt(l.type_))
}
fn key_term(t: TermRef) -> String {
	match t {
		TermRef::Iri(i) => key_iri(i),
		TermRef::Literal(l) => key_lit(l),
	}
}
fn key_local(t: LocalTermRef) -> String {
	match t {
		LocalTermRef::Anonymous(b) => b.as_str().to_owned(),
		LocalTermRef::Named(t) => key_term(t),
	}
}
fn key_id(t: IdRef) -> String {
	match t {
		IdRef::BlankId(b) => b.as_str().to_owned(),
		IdRef::Iri(t) => key_iri(t),
	}
}

// ---------------------------------------------------------------- C17
/// A type whose partial order has incomparable values.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Po(u8);
impl PartialOrd for Po {
	fn partial_cmp(&self, o: &Po) -> Option<Ordering> {
		if self.0 == 9 || o.0 == 9 {
			if self.0 == o.0 {
				Some(Ordering::Equal)
			} else {
				None
			}
		} else {
			self.0.partial_cmp(&o.0)
		}
	}
}
/// Another type, to compare across component types.
#[derive(Clone, Copy, Debug)]
struct Other(u8);
impl PartialEq<Other> for Po {
	fn eq(&self, o: &Other) -> bool {
		self.0 == o.0
	}
}
impl PartialOrd<Other> for Po {
	fn partial_cmp(&self, o: &Other) -> Option<Ordering> {
		self.partial_cmp(&Po(o.0))
	}
}
fn lex(v: &[Option<Ordering>]) -> Option<Ordering> {
	for o in v {
		if *o != Some(Ordering::Equal) {
			return *o;
		}
	}
	Some(Ordering::Equal)
}
fn graph_cmp<T: PartialOrd>(a: &Option<T>, b: &Option<T>) -> Option<Ordering> {
	match (a, b) {
		(None, None) => Some(Ordering::Equal),
		(None, _) => Some(Ordering::Less),
		(_, None) => Some(Ordering::Greater),
		(Some(a), Some(b)) => a.partial_cmp(b),
	}
}
fn c17_statements(a: [u8; 3], ga: Option<u8>, b: [u8; 3], gb: Option<u8>) -> Check {
	let ta = Triple(a[0], a[1], a[2]);
	let tb = Triple(b[0], b[1], b[2]);
	let comps: Vec<_> = (0..3).map(|i| a[i].partial_cmp(&b[i])).collect();
	let want = lex(&comps);
	ensure_eq!(ta.partial_cmp(&tb), want, "triple partial_cmp");
	ensure_eq!(Some(ta.cmp(&tb)), want, "triple cmp");
	ensure_eq!(ta == tb, want == Some(Ordering::Equal), "triple ==");
	ensure_eq!((ta < tb, ta <= tb, ta > tb, ta >= tb), {
		let o = want.unwrap();
		(o.is_lt(), o.is_le(), o.is_gt(), o.is_ge())
	}, "triple operators");
	if ta == tb {
		ensure_eq!(h(&ta), h(&tb), "triple hash");
	}
	let qa = ta.into_quad(ga);
	let qb = tb.into_quad(gb);
	let mut comps = comps;
	comps.push(graph_cmp(&ga, &gb));
	let want = lex(&comps);
	ensure_eq!(qa.partial_cmp(&qb), want, "quad partial_cmp");
	ensure_eq!(Some(qa.cmp(&qb)), want, "quad cmp");
	ensure_eq!(qa == qb, want == Some(Ordering::Equal), "quad ==");
	ensure_eq!((qa < qb, qa <= qb, qa > qb, qa >= qb), {
		let o = want.unwrap();
		(o.is_lt(), o.is_le(), o.is_gt(), o.is_ge())
	}, "quad operators");
	if qa == qb {
		ensure_eq!(h(&qa), h(&qb), "quad hash");
	}
	// partially ordered components, across component types
	let w = |x: u8| if x == 2 { 9 } else { x };
	let pa = Triple(Po(w(a[0])), Po(w(a[1])), Po(w(a[2])));
	let pb = Triple(Other(w(b[0])), Other(w(b[1])), Other(w(b[2])));
	let comps: Vec<_> = (0..3).map(|i| Po(w(a[i])).partial_cmp(&Po(w(b[i])))).collect();
	ensure_eq!(pa.partial_cmp(&pb), lex(&comps), "partially ordered triple");
	ensure_eq!(pa == pb, a == b, "mixed triple ==");
	let pqa = pa.into_quad(ga.map(|g| Po(w(g))));
	let pqb = pb.into_quad(gb.map(|g| Other(w(g))));
	let mut comps = comps;
	comps.push(graph_cmp(&ga.map(|g| Po(w(g))), &gb.map(|g| Po(w(g)))));
	ensure_eq!(pqa.partial_cmp(&pqb), lex(&comps), "partially ordered quad");
	ensure_eq!(pqa == pqb, a == b && ga == gb, "mixed quad ==");
	Ok(())
}
fn c17_terms(a: &LocalTerm, b: &LocalTerm) -> Check {
	let o = a.cmp(b);
	ensure_eq!(a.partial_cmp(b), Some(o), "partial_cmp/cmp of local terms");
	ensure_eq!(a == b, o == Ordering::Equal, "==/cmp of local terms");
	ensure_eq!(b.cmp(a), o.reverse(), "antisymmetry");
	if a == b {
		ensure_eq!(h(a), h(b), "hash of equal local terms");
	}
	ensure_eq!(a.as_ref() == b.as_ref(), a == b, "borrowed == of local terms");
	ensure_eq!(a.as_ref().cmp(&b.as_ref()), o, "borrowed cmp of local terms");
	ensure_eq!(a.as_ref().partial_cmp(&b.as_ref()), Some(o), "borrowed partial_cmp of local terms");
	ensure_eq!(a.as_ref() == *b, a == b, "borrowed == owned local terms");
	ensure_eq!(a.as_ref().partial_cmp(b), Some(o), "borrowed/owned partial_cmp of local terms");
	// the order by kind: blank nodes, IRIs, literals
	let kind = |t: &LocalTerm| match t {
		LocalTerm::Anonymous(_) => 0,
		LocalTerm::Named(Term::Iri(_)) => 1,
		LocalTerm::Named(Term::Literal(_)) => 2,
	};
	if kind(a) != kind(b) {
		ensure_eq!(o, kind(a).cmp(&kind(b)), "order by kind");
	}
	let (LocalTerm::Named(a), LocalTerm::Named(b)) = (a, b) else { return Ok(()) };
	ensure_eq!(a.cmp(b), o, "cmp of terms");
	ensure_eq!(a == b, o.is_eq(), "== of terms");
	ensure_eq!(a.partial_cmp(b), Some(o), "partial_cmp of terms");
	if a == b {
		ensure_eq!(h(a), h(b), "hash of equal terms");
	}
	ensure_eq!(a.as_ref() == b.as_ref(), o.is_eq(), "borrowed == of terms");
	ensure_eq!(a.as_ref().cmp(&b.as_ref()), o, "borrowed cmp of terms");
	ensure_eq!(a.as_ref() == *b, o.is_eq(), "borrowed == owned terms");
	ensure_eq!(a.as_ref().partial_cmp(b), Some(o), "borrowed/owned partial_cmp of terms");
	let (Term::Literal(a), Term::Literal(b)) = (a, b) else { return Ok(()) };
	let lt = a.type_.cmp(&b.type_);
	let want = a.value.cmp(&b.value).then(lt);
	ensure_eq!(o, want, "literal order: value, then type");
	ensure_eq!(a.cmp(b), want, "cmp of literals");
	ensure_eq!(a == b, o.is_eq(), "== of literals");
	ensure_eq!(a == b, a.value == b.value && a.type_ == b.type_, "== of literals, by component");
	ensure_eq!(a.as_ref() == b.as_ref(), o.is_eq(), "borrowed == of literals");
	ensure_eq!(a.as_ref().cmp(&b.as_ref()), o, "borrowed cmp of literals");
	ensure_eq!(a.as_ref() == *b, o.is_eq(), "borrowed == owned literals");
	ensure_eq!(*a == b.as_ref(), o.is_eq(), "owned == borrowed literals");
	ensure_eq!(a.as_ref().partial_cmp(b), Some(o), "borrowed/owned partial_cmp of literals");
	ensure_eq!(a.partial_cmp(&b.as_ref()), Some(o), "owned/borrowed partial_cmp of literals");
	ensure_eq!(equivalent::Equivalent::equivalent(&a.as_ref(), b), o.is_eq(), "equivalent");
	ensure_eq!(a.as_cow() == b.as_cow(), o.is_eq(), "copy-on-write == of literals");
	ensure_eq!(a.as_cow().cmp(&b.clone().into_cow()), o, "copy-on-write cmp of literals");
	if a == b {
		ensure_eq!(h(a), h(&b.as_ref()), "hash of equal owned and borrowed literals");
		ensure_eq!(h(a), h(b), "hash of equal literals");
		ensure_eq!(h(&a.as_ref()), h(&b.as_cow()), "hash of equal borrowed and cow literals");
	}
	let (a, b) = (&a.type_, &b.type_);
	let e = lt.is_eq();
	ensure_eq!(a == b, e, "== of literal types");
	ensure_eq!(a.partial_cmp(b), Some(lt), "partial_cmp of literal types");
	ensure_eq!(a.as_ref() == b.as_ref(), e, "borrowed == of literal types");
	ensure_eq!(a.as_ref().cmp(&b.as_ref()), lt, "borrowed cmp of literal types");
	ensure_eq!(a.as_ref() == *b, e, "borrowed == owned literal types");
	ensure_eq!(*a == b.as_ref(), e, "owned == borrowed literal types");
	ensure_eq!(a.as_ref().partial_cmp(b), Some(lt), "borrowed/owned partial_cmp of literal types");
	ensure_eq!(a.partial_cmp(&b.as_ref()), Some(lt), "owned/borrowed partial_cmp of literal types");
	if e {
		ensure_eq!(h(a), h(&b.as_ref()), "hash of equal owned and borrowed literal types");
	}
	match (a, b) {
		(LiteralType::Any(x), LiteralType::Any(y)) => ensure_eq!(lt, x.cmp(y), "order of types by IRI"),
		(LiteralType::LangString(x), LiteralType::LangString(y)) => {
			ensure_eq!(lt, x.cmp(y), "order of types by tag")
		}
		(LiteralType::Any(_), _) => ensure_eq!(lt, Ordering::Less, "plain types before language strings"),
		_ => ensure_eq!(lt, Ordering::Greater, "plain types before language strings"),
	}
	Ok(())
}
fn c17_ids(a: &Id, b: &Id) -> Check {
	let (x, y) = (a.as_ref(), b.as_ref());
	let want = match (a, b) {
		(Id::BlankId(a), Id::BlankId(b)) => a.as_str().cmp(b.as_str()),
		(Id::Iri(a), Id::Iri(b)) => a.cmp(b),
		(Id::BlankId(_), _) => Ordering::Less,
		_ => Ordering::Greater,
	};
	ensure_eq!(x.cmp(&y), want, "cmp of ids");
	ensure_eq!(x.partial_cmp(&y), Some(want), "partial_cmp of ids");
	ensure_eq!(x == y, want.is_eq(), "== of ids");
	if let (Id::BlankId(a), Id::BlankId(b)) = (a, b) {
		ensure_eq!(a.cmp(b), want, "cmp of blank ids");
		ensure_eq!((**a).cmp(&**b), want, "cmp of borrowed blank ids");
		ensure_eq!(*a == **b, want.is_eq(), "owned == borrowed blank ids");
		ensure_eq!(**a == *b, want.is_eq(), "borrowed == owned blank ids");
		ensure_eq!(h(a), h::<BlankId>(a), "hash of owned and borrowed blank ids");
	}
	Ok(())
}
pub fn c17(c: &mut Ctx) {
	let opt = [None, Some(0u8), Some(1), Some(2)];
	for i in 0..729usize {
		let d = |k: u32| (i / 3usize.pow(k) % 3) as u8;
		let (a, b) = ([d(0), d(1), d(2)], [d(3), d(4), d(5)]);
		for ga in opt {
			for gb in opt {
				c.case((i, ga, gb), &|| format!("{a:?} {ga:?} against {b:?} {gb:?}"), || c17_statements(a, ga, b, gb));
			}
		}
	}
	c.scope("all pairs of triples and quads over 3 resources, totally and partially ordered, same and mixed types");
	let n = c.n(300_000, 3_000_000);
	for i in 0..n {
		if c.out_of_time() {
			break;
		}
		let a = locals(c);
		let b = match i % 4 {
			0 => a.clone(),
			1 => match &a {
				// vary one component only
				LocalTerm::Named(Term::Literal(l)) => {
					let mut l = l.clone();
					if c.rng.chance(1, 2) {
						l.value = strings(c)
					} else {
						l.type_ = ltype(c)
					}
					LocalTerm::literal(l)
				}
				_ => locals(c),
			},
			_ => locals(c),
		};
		c.case((key_local(a.as_ref()), key_local(b.as_ref())), &|| format!("{a:?} against {b:?}"), || c17_terms(&a, &b));
		if i % 8 == 0 {
			let (x, y) = (ids(c), ids(c));
			c.case((key_id(x.as_ref()), key_id(y.as_ref())), &|| format!("{:?} against {:?}", x.as_ref(), y.as_ref()), || {
				c17_ids(&x, &y)
			});
		}
	}
}

// ---------------------------------------------------------------- C18
/// An N-Triples/N-Quads term reader, written from the specification.
struct Reader<'a>(&'a [char], usize);
#[derive(Debug, PartialEq)]
enum Tok {
	Blank(String),
	Iri(String),
	Lit(String, Option<String>, Option<String>),
}
impl Reader<'_> {
	fn peek(&self) -> Option<char> {
		self.0.get(self.1).copied()
	}
	fn take(&mut self) -> Result<char, String> {
		let c = self.peek().ok_or("unexpected end of text")?;
		self.1 += 1;
		Ok(c)
	}
	fn hex(&mut self, n: usize) -> Result<char, String> {
		let mut v = 0;
		for _ in 0..n {
			v = v * 16 + self.take()?.to_digit(16).ok_or("bad hexadecimal digit")?;
		}
		char::from_u32(v).ok_or("bad code point".into())
	}
	fn iri(&mut self) -> Result<String, String> {
		let mut s = String::new();
		loop {
			match self.take()? {
				'>' => return Ok(s),
				'\\' => s.push(match self.take()? {
					'u' => self.hex(4)?,
					'U' => self.hex(8)?,
					_ => return Err("bad escape in IRI".into()),
				}),
				c if c <= ' ' || "<\"{}|^`".contains(c) => return Err(format!("illegal character {c:?} in IRI")),
				c => s.push(c),
			}
		}
	}
	fn term(&mut self) -> Result<Tok, String> {
		match self.take()? {
			'<' => Ok(Tok::Iri(self.iri()?)),
			'_' => {
				let mut s = "_".to_owned();
				while let Some(c) = self.peek() {
					if c == '.' || c == ':' || g_pn(c) {
						s.push(c);
						self.1 += 1;
					} else {
						break;
					}
				}
				while s.ends_with('.') {
					s.pop();
					self.1 -= 1;
				}
				if grammar(&s) {
					Ok(Tok::Blank(s))
				} else {
					Err(format!("illegal blank node label {s:?}"))
				}
			}
			'"' => {
				let mut s = String::new();
				loop {
					match self.take()? {
						'"' => break,
						'\n' | '\r' => return Err("raw line break in string".into()),
						'\\' => s.push(match self.take()? {
							't' => '\t',
							'b' => '\u{8}',
							'n' => '\n',
							'r' => '\r',
							'f' => '\u{c}',
							'"' => '"',
							'\'' => '\'',
							'\\' => '\\',
							'u' => self.hex(4)?,
							'U' => self.hex(8)?,
							c => return Err(format!("bad escape {c:?} in string")),
						}),
						c => s.push(c),
					}
				}
				if self.peek() == Some('@') {
					self.1 += 1;
					let mut t = String::new();
					while let Some(c) = self.peek() {
						if c.is_ascii_alphanumeric() || c == '-' {
							t.push(c);
							self.1 += 1;
						} else {
							break;
						}
					}
					if t.is_empty() {
						return Err("empty language tag".into());
					}
					Ok(Tok::Lit(s, Some(t), None))
				} else if self.peek() == Some('^') {
					self.1 += 1;
					if self.take()? != '^' || self.take()? != '<' {
						return Err("bad datatype mark".into());
					}
					let i = self.iri()?;
					Ok(Tok::Lit(s, None, Some(i)))
				} else {
					Ok(Tok::Lit(s, None, None))
				}
			}
			c => Err(format!("unexpected {c:?}")),
		}
	}
	fn space(&mut self) -> Result<(), String> {
		match self.take()? {
			' ' => Ok(()),
			c => Err(format!("expected a space, found {c:?}")),
		}
	}
}
/// Reads `n` terms separated by spaces and nothing else.
fn read_terms(text: &str) -> Result<Vec<Tok>, String> {
	let v: Vec<char> = text.chars().collect();
	let mut r = Reader(&v, 0);
	let mut out = vec![r.term()?];
	while r.peek().is_some() {
		r.space()?;
		out.push(r.term()?);
	}
	Ok(out)
}
/// Value denoted by a token, as an owned term.
fn denote(t: Tok) -> Result<LocalTerm, String> {
	Ok(match t {
		Tok::Blank(b) => LocalTerm::Anonymous(BlankIdBuf::new(b).map_err(|_| "illegal blank node label")?),
		Tok::Iri(i) => LocalTerm::iri(IriBuf::new(i).map_err(|_| "illegal IRI")?),
		Tok::Lit(v, Some(t), _) => LocalTerm::literal(Literal::new(
			v,
			LiteralType::LangString(LangTagBuf::new(t).map_err(|_| "illegal tag")?),
		)),
		Tok::Lit(v, None, Some(i)) => {
			LocalTerm::literal(Literal::new(v, LiteralType::Any(IriBuf::new(i).map_err(|_| "illegal datatype")?)))
		}
		Tok::Lit(v, None, None) => LocalTerm::literal(Literal::new(
			v,
			LiteralType::Any(IriBuf::new("http://www.w3.org/2001/XMLSchema#string".to_owned()).unwrap()),
		)),
	})
}
fn same(got: &LocalTerm, want: &LocalTerm, text: &str) -> Check {
	// Datatypes equal to xsd:string up to percent-encoding are left out.
	let norm = |t: &LocalTerm| match t {
		LocalTerm::Named(Term::Literal(Literal { value, type_: LiteralType::Any(i) })) if i == XSD_STRING => {
			format!("{value:?}")
		}
		t => key_local(t.as_ref()),
	};
	ensure!(norm(got) == norm(want), "text {text:?} reads back as {got:?}, not {want:?}");
	Ok(())
}
fn one_line(text: &str) -> Check {
	ensure!(!text.contains('\n') && !text.contains('\r'), "text {text:?} is not one line");
	Ok(())
}
fn reads_as(text: &str, want: &[&LocalTerm]) -> Check {
	reads(text, want, true)
}
/// In a store, equal but differently written terms share one representative.
fn reads(text: &str, want: &[&LocalTerm], exact: bool) -> Check {
	one_line(text)?;
	let toks = read_terms(text).map_err(|e| format!("text {text:?} cannot be read: {e}"))?;
	ensure_eq!(toks.len(), want.len(), "number of terms in {text:?}");
	for (t, w) in toks.into_iter().zip(want) {
		if let (Tok::Lit(_, None, d), LocalTerm::Named(Term::Literal(l))) = (&t, w) {
			let plain = matches!(&l.type_, LiteralType::Any(i) if i == XSD_STRING);
			ensure_eq!(d.is_none(), plain, "datatype left out in {text:?}");
		}
		let g = denote(t).map_err(|e| format!("text {text:?}: {e}"))?;
		if exact {
			same(&g, w, text)?;
		} else {
			ensure!(g == **w, "text {text:?} reads back as {g:?}, not {w:?}");
		}
	}
	Ok(())
}
/// A value written beside a context; the context of the display of terms is not used.
fn with_context<T: rdf_types::RdfDisplayWithContext<str> + ?Sized>(v: &T, s: &str) -> Check {
	let mut other = String::from("b");
	ensure_eq!(contextual::Contextual(v, "a").rdf_display().to_string(), s, "display in a context");
	ensure_eq!(contextual::Contextual(v, other.as_mut_str()).rdf_display().to_string(), s, "display in a mutable context");
	Ok(())
}
fn c18_term(t: &LocalTerm) -> Check {
	let s = t.rdf_display().to_string();
	reads_as(&s, &[t])?;
	for f in [format!("{:6}", t.rdf_display()), format!("{:>7}", t.rdf_display()), format!("{:#}", t.rdf_display()), format!("{:09}", t.rdf_display())] {
		// Padding may only be added around it.
		ensure_eq!(f.trim_matches(' '), s.as_str(), "display with a width");
	}
	if let LocalTerm::Named(_) = t {
		ensure_eq!(format!("{:.0}", t.rdf_display()), s, "display with a precision");
		ensure_eq!(format!("{:>12.1}", t.rdf_display()), s, "display with a width and a precision");
	}
	ensure_eq!((&t).rdf_display().to_string(), s, "display through a reference");
	match t {
		LocalTerm::Anonymous(b) => {
			ensure_eq!(s.as_str(), b.as_str(), "a blank node is written as its label");
			ensure_eq!(b.rdf_display().to_string(), s, "owned blank id");
			ensure_eq!(b.as_blank_id_ref().rdf_display().to_string(), s, "borrowed blank id");
			ensure_eq!(t.to_string(), s, "plain display of a blank node");
		}
		LocalTerm::Named(n) => {
			ensure_eq!(n.rdf_display().to_string(), s, "term");
			match n {
				Term::Iri(i) => {
					ensure_eq!(s, format!("<{}>", i.as_str()), "an IRI is in angle brackets");
					ensure_eq!(i.rdf_display().to_string(), s, "owned iri");
					ensure_eq!(i.as_iri().rdf_display().to_string(), s, "borrowed iri");
					ensure_eq!(i.as_iri_ref().rdf_display().to_string(), s, "borrowed iri reference");
					let b: iref::IriRefBuf = i.as_iri_ref().to_owned();
					ensure_eq!(b.rdf_display().to_string(), s, "owned iri reference");
					with_context(i.as_iri(), &s)?;
					with_context(i, &s)?;
					with_context(&b, &s)?;
				}
				Term::Literal(l) => {
					ensure_eq!(l.rdf_display().to_string(), s, "literal");
					ensure_eq!(l.to_string(), s, "plain display of a literal");
					ensure_eq!(t.to_string(), s, "plain display of a literal term");
					ensure_eq!(l.as_ref().rdf_display().to_string(), s, "borrowed literal");
					ensure_eq!(l.as_ref().to_string(), s, "plain display of a borrowed literal");
					let v = l.value.rdf_display().to_string();
					reads_as(&v, &[&LocalTerm::literal(Literal::new(l.value.clone(), LiteralType::Any(XSD_STRING.to_owned())))])?;
					ensure_eq!(l.value.as_str().rdf_display().to_string(), v, "borrowed string");
					let ty = l.type_.rdf_display().to_string();
					ensure_eq!(l.type_.as_ref().rdf_display().to_string(), ty, "borrowed literal type");
					ensure_eq!(ty, key_lt(l.type_.as_ref()), "literal type");
					if let LiteralType::LangString(tag) = &l.type_ {
						ensure_eq!(tag.rdf_display().to_string(), tag.as_str(), "owned tag");
						ensure_eq!(tag.as_lang_tag().rdf_display().to_string(), tag.as_str(), "borrowed tag");
						with_context(tag, tag.as_str())?;
						with_context(tag.as_lang_tag(), tag.as_str())?;
					}
				}
			}
		}
	}
	Ok(())
}
fn c18_stmt(t: &Triple, g: &Option<LocalTerm>) -> Check {
	let s = t.rdf_display().to_string();
	reads_as(&s, &[&t.0, &t.1, &t.2])?;
	ensure_eq!(t.to_string(), s, "plain display of a triple");
	ensure_eq!(t.as_ref().rdf_display().to_string(), s, "borrowed triple");
	let q = t.clone().into_quad(g.clone());
	let s = q.rdf_display().to_string();
	match g {
		Some(g) => reads_as(&s, &[&t.0, &t.1, &t.2, g])?,
		None => reads_as(&s, &[&t.0, &t.1, &t.2])?,
	}
	ensure_eq!(q.to_string(), s, "plain display of a quad");
	for f in [format!("{:40}", q.rdf_display()), format!("{:>40.1}", q.rdf_display()), format!("{q:#9}")] {
		ensure_eq!(f, s, "display of a quad with formatting options");
	}
	ensure_eq!(q.as_ref().rdf_display().to_string(), s, "borrowed quad");
	ensure_eq!(q.as_ref().to_string(), s, "plain display of a borrowed quad");
	Ok(())
}
fn c18_store(quads: &[Quad]) -> Check {
	let lines = |text: String, want: Vec<Vec<LocalTerm>>| -> Check {
		let mut rest = text.as_str();
		for w in &want {
			let Some((line, r)) = rest.split_once('\n') else {
				return Err(format!("missing line in {text:?}"));
			};
			rest = r;
			let Some(body) = line.strip_suffix(" .") else {
				return Err(format!("line {line:?} is not terminated"));
			};
			reads(body, &w.iter().collect::<Vec<_>>(), false)?;
		}
		ensure!(rest.is_empty(), "extra text {rest:?}");
		Ok(())
	};
	let set: BTreeSet<Quad> = quads.iter().cloned().collect();
	let want: Vec<Vec<LocalTerm>> = set
		.iter()
		.map(|q| [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten().cloned().collect())
		.collect();
	let d: BTreeDataset = quads.iter().cloned().collect();
	lines(d.rdf_display().to_string(), want.clone()).map_err(|e| format!("BTreeDataset: {e}"))?;
	let d: IndexedBTreeDataset = quads.iter().cloned().collect();
	lines(d.rdf_display().to_string(), want).map_err(|e| format!("IndexedBTreeDataset: {e}"))?;
	let set: BTreeSet<Triple> = quads.iter().cloned().map(|q| q.into_triple().0).collect();
	let want: Vec<Vec<LocalTerm>> = set.iter().map(|q| vec![q.0.clone(), q.1.clone(), q.2.clone()]).collect();
	let g: BTreeGraph = set.iter().rev().cloned().collect();
	lines(g.rdf_display().to_string(), want.clone()).map_err(|e| format!("BTreeGraph: {e}"))?;
	let g: IndexedBTreeGraph = set.iter().rev().cloned().collect();
	lines(g.rdf_display().to_string(), want).map_err(|e| format!("IndexedBTreeGraph: {e}"))
}
pub fn c18(c: &mut Ctx) {
	for x in (0..=0x10FFFFu32).step_by(64) {
		let chars: Vec<char> = (x..x + 64).filter_map(char::from_u32).collect();
		let s: String = chars.iter().chain(&['\\', 'n']).collect();
		let b: String = chars.iter().flat_map(|c| ['\\', *c, 'a']).collect();
		for s in [s, b] {
			let t = LocalTerm::literal(Literal::new(s.clone(), LiteralType::Any(XSD_STRING.to_owned())));
			c.case(&s, &|| format!("{t:?}"), || c18_term(&t));
		}
	}
	c.scope("every Unicode scalar value, plain and after a backslash, in a string literal");
	let n = c.n(60_000, 600_000);
	for i in 0..n {
		if c.out_of_time() {
			break;
		}
		let t = Triple(locals(c), locals(c), locals(c));
		let g = if c.rng.chance(1, 2) { None } else { Some(locals(c)) };
		c.case(key_local(t.0.as_ref()), &|| format!("{:?}", t.0), || c18_term(&t.0));
		c.case((key_local(t.0.as_ref()), key_local(t.1.as_ref()), key_local(t.2.as_ref())), &|| format!("{t:?} {g:?}"), || {
			c18_stmt(&t, &g)
		});
		if i % 32 == 0 {
			let k = c.rng.below(12);
			let pool: Vec<LocalTerm> = (0..4).map(|_| locals(c)).collect();
			let qs: Vec<Quad> = (0..k)
				.map(|_| {
					let mut p = || c.rng.pick(&pool).clone();
					let (s, pr, o, g) = (p(), p(), p(), p());
					Quad(s, pr, o, if c.rng.chance(1, 2) { None } else { Some(g) })
				})
				.collect();
			c.case(("store", i), &|| format!("{qs:?}"), || c18_store(&qs));
		}
	}
}

// ---------------------------------------------------------------- C19
fn cow_id(t: CowId) -> String {
	match t {
		CowId::BlankId(b) => b.as_str().to_owned(),
		CowId::Iri(i) => key_iri(&i),
	}
}
fn cow_local(t: CowLocalTerm) -> String {
	match t {
		CowLocalTerm::Anonymous(b) => b.as_str().to_owned(),
		CowLocalTerm::Named(t) => cow_term(t),
	}
}
fn cow_term(t: CowTerm) -> String {
	match t {
		CowTerm::Iri(i) => key_iri(&i),
		CowTerm::Literal(l) => key_lit(l.as_ref()),
	}
}
fn c19_literal(l: &Literal) -> Check {
	let k = key_lit(l.as_ref());
	let r = l.as_ref();
	ensure_eq!(format!("{:?}", r.value), format!("{:?}", l.value), "borrowed value");
	let kt = match &l.type_ {
		LiteralType::Any(i) => format!("^^<{}>", i.as_str()),
		LiteralType::LangString(t) => format!("@{}", t.as_str()),
	};
	ensure_eq!(k, format!("{:?}{kt}", l.value), "borrowed literal");
	for (n, o) in [
		("as_ref.to_owned", r.to_owned()),
		("as_ref.cloned", r.cloned()),
		("as_cow.into_owned", l.as_cow().into_owned()),
		("into_cow.into_owned", l.clone().into_cow().into_owned()),
		("ref.into_cow.into_owned", r.into_cow().into_owned()),
		("CowLiteral::from.into_owned", CowLiteral::from(l).into_owned()),
		("as_cow.as_ref.to_owned", l.as_cow().as_ref().to_owned()),
		("new", Literal::new(l.value.clone(), l.type_.clone())),
	] {
		ensure_eq!(key_lit(o.as_ref()), k, "{n}");
		ensure!(o == *l, "{n} is not equal to the original");
	}
	let tag = match &l.type_ {
		LiteralType::LangString(t) => Some(t.as_str()),
		_ => None,
	};
	ensure_eq!(l.is_lang_string(), tag.is_some(), "is_lang_string");
	ensure_eq!(r.is_lang_string(), tag.is_some(), "borrowed is_lang_string");
	ensure_eq!(l.lang_tag().map(|t| t.as_str()), tag, "lang_tag");
	ensure_eq!(r.lang_tag().map(|t| t.as_str()), tag, "borrowed lang_tag");
	ensure_eq!(l.as_type(), &l.type_, "as_type");
	ensure_eq!(key_lt(r.as_type()), kt, "borrowed as_type");
	ensure_eq!(key_lt(r.into_type()), kt, "borrowed into_type");
	ensure_eq!(key_lt(l.clone().into_type().as_ref()), kt, "into_type");
	ensure_eq!(l.as_value(), &l.value, "as_value");
	ensure_eq!(l.clone().into_value(), l.value, "into_value");
	ensure_eq!((r.as_value(), r.into_value(), r.as_str()), (l.value.as_str(), l.value.as_str(), l.value.as_str()), "borrowed value");
	ensure_eq!((l.as_str(), l.as_bytes(), r.as_bytes()), (l.value.as_str(), l.value.as_bytes(), l.value.as_bytes()), "text");
	let (v, t) = l.clone().into_parts();
	ensure_eq!((v, key_lt(t.as_ref())), (l.value.clone(), kt.clone()), "into_parts");
	let (v, t) = r.into_parts();
	ensure_eq!((v, key_lt(t)), (l.value.as_str(), kt.clone()), "borrowed into_parts");
	let mut m = l.clone();
	m.as_value_mut().push('!');
	ensure_eq!((m.value.clone(), key_lt(m.type_.as_ref())), (format!("{}!", l.value), kt.clone()), "as_value_mut");
	let mut m = l.clone();
	*m.as_type_mut() = LiteralType::Any(XSD_STRING.to_owned());
	ensure!(m.value == l.value && m.type_.is_xsd_string(), "as_type_mut");
	let ty = &l.type_;
	for (n, o) in [
		("type as_ref.into_owned", ty.as_ref().into_owned()),
		("type as_cow.into_owned", ty.as_cow().into_owned()),
		("type into_cow.into_owned", ty.clone().into_cow().into_owned()),
		("type From<Cow>", LiteralType::from(ty.as_cow())),
		("type cow from ref", CowLiteralType::from(ty.as_ref()).into_owned()),
		("type as_cow.as_ref.into_owned", ty.as_cow().as_ref().into_owned()),
	] {
		ensure_eq!(key_lt(o.as_ref()), kt, "{n}");
	}
	ensure_eq!((ty.is_lang_string(), ty.as_ref().is_lang_string()), (tag.is_some(), tag.is_some()), "type kind");
	ensure_eq!(ty.lang_tag().map(|t| t.as_str()), tag, "type tag");
	ensure_eq!(ty.as_ref().lang_tag().map(|t| t.as_str()), tag, "borrowed type tag");
	let is_str = matches!(ty, LiteralType::Any(i) if i == XSD_STRING);
	ensure_eq!((ty.is_xsd_string(), ty.as_ref().is_xsd_string()), (is_str, is_str), "is_xsd_string");
	match ty {
		LiteralType::Any(i) => {
			ensure!(ty.is_iri(i) && ty.as_ref().is_iri(i), "is_iri");
			let other = IriBuf::new("urn:never".to_owned()).unwrap();
			ensure!(!ty.is_iri(&other) && !ty.as_ref().is_iri(&other), "is_iri of another IRI");
			for o in [
				CowLiteralType::from(i.as_iri()), CowLiteralType::from(i.clone()),
				CowLiteralType::from(Cow::Borrowed(i.as_iri())), CowLiteralType::from(Cow::<Iri>::Owned(i.clone())),
			] {
				ensure_eq!(key_lt(o.as_ref()), kt, "type from iri");
			}
		}
		LiteralType::LangString(t) => {
			ensure!(!ty.is_iri(RDF_LANG_STRING) && !ty.as_ref().is_iri(RDF_LANG_STRING), "is_iri of a language string");
			for o in [
				CowLiteralType::from(t.as_lang_tag()), CowLiteralType::from(t.clone()),
				CowLiteralType::from(Cow::Borrowed(t.as_lang_tag())), CowLiteralType::from(Cow::<langtag::LangTag>::Owned(t.clone())),
			] {
				ensure_eq!(key_lt(o.as_ref()), kt, "type from tag");
			}
		}
	}
	Ok(())
}
fn c19_local(t: &LocalTerm) -> Check {
	let k = match t {
		LocalTerm::Anonymous(b) => b.as_str().to_owned(),
		LocalTerm::Named(Term::Iri(i)) => format!("<{}>", i.as_str()),
		LocalTerm::Named(Term::Literal(l)) => key_lit(l.as_ref()),
	};
	ensure_eq!(key_local(t.as_ref()), k, "as_ref");
	let o = t.as_ref().to_owned();
	ensure!(o == *t, "as_ref.to_owned");
	ensure_eq!(key_local(o.as_ref()), k, "as_ref.to_owned");
	ensure_eq!(cow_local(t.as_cow()), k, "as_cow");
	ensure_eq!(cow_local(t.clone().into_cow()), k, "into_cow");
	ensure_eq!(cow_local(CowLocalTerm::from(t.clone())), k, "CowLocalTerm::from");
	let (b, i, l) = match t {
		LocalTerm::Anonymous(b) => (Some(b.as_str()), None, None),
		LocalTerm::Named(Term::Iri(i)) => (None, Some(i.as_str()), None),
		LocalTerm::Named(Term::Literal(l)) => (None, None, Some(key_lit(l.as_ref()))),
	};
	ensure_eq!((t.is_anonymous(), t.is_blank_id()), (b.is_some(), b.is_some()), "is_anonymous");
	ensure_eq!((t.as_anonymous().map(|b| b.as_str()), t.as_blank_id().map(|b| b.as_str())), (b, b), "as_blank_id");
	ensure_eq!(t.as_iri().map(|i| i.as_str()), i, "as_iri");
	ensure_eq!(t.as_literal().map(key_lit), l, "as_literal");
	match t {
		LocalTerm::Anonymous(b) => {
			ensure_eq!(key_local(LocalTerm::from(b.clone()).as_ref()), k, "from blank id")
		}
		LocalTerm::Named(n) => {
			ensure_eq!(key_local(LocalTerm::from(n.clone()).as_ref()), k, "from term");
			match n {
				Term::Iri(i) => {
					ensure_eq!(key_local(LocalTerm::from(i.clone()).as_ref()), k, "from iri");
					ensure_eq!(key_local(LocalTerm::iri(i.clone()).as_ref()), k, "iri");
				}
				Term::Literal(l) => {
					ensure_eq!(key_local(LocalTerm::from(l.clone()).as_ref()), k, "from literal");
					ensure_eq!(key_local(LocalTerm::literal(l.clone()).as_ref()), k, "literal");
					c19_literal(l)?;
				}
			}
			for (m, o) in [
				("as_ref.to_owned", n.as_ref().to_owned()),
				("as_cow.into_owned", n.as_cow().into_owned()),
				("into_cow.into_owned", n.clone().into_cow().into_owned()),
				("CowTerm::from.into_owned", CowTerm::from(n.clone()).into_owned()),
			] {
				ensure!(o == *n, "term {m}");
				ensure_eq!(key_term(o.as_ref()), k, "term {m}");
			}
			ensure_eq!((n.is_iri(), n.is_literal()), (i.is_some(), l.is_some()), "term kind");
			ensure_eq!(n.as_iri().map(|i| i.as_str()), i, "term as_iri");
			ensure_eq!(n.as_literal().map(key_lit), l, "term as_literal");
			ensure_eq!(n.clone().into_iri().map(|i| i.as_str().to_owned()), i.map(|i| i.to_owned()), "into_iri");
			ensure_eq!(n.clone().into_literal().map(|l| key_lit(l.as_ref())), l, "into_literal");
			match n.clone().try_into_iri() {
				Ok(x) => ensure_eq!(Some(x.as_str()), i, "try_into_iri"),
				Err(x) => ensure!(i.is_none() && key_term(x.as_ref()) == k, "try_into_iri hands the term back"),
			}
			match n.clone().try_into_literal() {
				Ok(x) => ensure_eq!(Some(key_lit(x.as_ref())), l, "try_into_literal"),
				Err(x) => ensure_eq!(Some(x.as_str()), i, "try_into_literal hands the IRI back"),
			}
		}
	}
	Ok(())
}
fn c19_id(t: &Id) -> Check {
	let k = match t {
		Id::BlankId(b) => b.as_str().to_owned(),
		Id::Iri(i) => format!("<{}>", i.as_str()),
	};
	ensure_eq!(key_id(t.as_ref()), k, "id as_ref");
	ensure_eq!(key_id(t.as_ref().to_owned().as_ref()), k, "id to_owned");
	ensure_eq!(key_id(t.as_ref().into_owned().as_ref()), k, "id into_owned");
	ensure_eq!(cow_id(t.as_cow()), k, "id as_cow");
	ensure_eq!(t.as_iri().map(|i| i.as_str()), match t {
		Id::Iri(i) => Some(i.as_str()),
		_ => None,
	}, "id as_iri");
	Ok(())
}
fn c19_lex(s: Id, p: IriBuf, o: LocalTerm, g: Option<Id>) -> Check {
	let want = (key_id(s.as_ref()), key_iri(&p), key_local(o.as_ref()), g.as_ref().map(|g| key_id(g.as_ref())));
	let show = |t: &LexicalTripleRef| (key_id(t.0), key_iri(t.1), key_local(t.2));
	let q: RdfQuad = Quad(s, p, o, g);
	let r = q.as_lexical_quad_ref();
	let showq = |r: &RdfQuadRef| (key_id(r.0), key_iri(r.1), key_local(r.2), r.3.map(key_id));
	ensure_eq!(showq(&r), want, "as_lexical_quad_ref");
	let own = r.into_owned();
	ensure_eq!(showq(&own.as_lexical_quad_ref()), want, "quad into_owned");
	let (t, g): (LexicalTriple, _) = own.into_triple();
	ensure_eq!(g.map(|g| key_id(g.as_ref())), want.3, "into_triple graph");
	let want = (want.0, want.1, want.2);
	ensure_eq!(show(&t.as_lexical_triple_ref()), want, "as_lexical_triple_ref");
	let own = t.as_lexical_triple_ref().into_owned();
	ensure_eq!(show(&own.as_lexical_triple_ref()), want, "triple into_owned");
	Ok(())
}
#[allow(deprecated)]
fn c19_components(a: [u8; 3], g: Option<u8>) -> Check {
	let t = Triple::new(a[0], a[1], a[2]);
	ensure_eq!((t.0, t.1, t.2), (a[0], a[1], a[2]), "new");
	ensure_eq!((*t.subject(), *t.predicate(), *t.object()), (a[0], a[1], a[2]), "accessors");
	ensure_eq!((t.into_subject(), t.into_predicate(), t.into_object()), (a[0], a[1], a[2]), "into accessors");
	ensure_eq!(t.into_parts(), (a[0], a[1], a[2]), "into_parts");
	let f = |x: u8| x as u16 + 1000;
	let raw = |t: Triple<u16, u16, u16>| (t.0, t.1, t.2);
	let w = |x: u8| x as u16;
	let m = t.map_subject(f);
	ensure_eq!((m.0, m.1, m.2), (f(a[0]), a[1], a[2]), "map_subject");
	let m = t.map_predicate(f);
	ensure_eq!((m.0, m.1, m.2), (a[0], f(a[1]), a[2]), "map_predicate");
	let m = t.map_object(f);
	ensure_eq!((m.0, m.1, m.2), (a[0], a[1], f(a[2])), "map_object");
	ensure_eq!(raw(t.map(f)), (f(a[0]), f(a[1]), f(a[2])), "map");
	let mut n = 0u16;
	ensure_eq!(raw(t.map(|x| { n += 256; n + w(x) })), (256 + w(a[0]), 512 + w(a[1]), 768 + w(a[2])), "map order");
	for (n, c) in [("cloned", t.as_ref().cloned()), ("into_cloned", t.as_ref().into_cloned()), ("copied", t.as_ref().copied()), ("into_copied", t.as_ref().into_copied())] {
		ensure_eq!((c.0, c.1, c.2), (a[0], a[1], a[2]), "triple {n}");
	}
	let mut m = t;
	*m.subject_mut() = 77;
	ensure_eq!((m.0, m.1, m.2), (77, a[1], a[2]), "subject_mut");
	*m.predicate_mut() = 78;
	ensure_eq!((m.0, m.1, m.2), (77, 78, a[2]), "predicate_mut");
	*m.object_mut() = 79;
	ensure_eq!((m.0, m.1, m.2), (77, 78, 79), "object_mut");
	let q = t.into_quad(g);
	let raw4 = |q: &Quad<u8, u8, u8, u8>| (q.0, q.1, q.2, q.3);
	let all = (a[0], a[1], a[2], g);
	ensure_eq!(raw4(&q), all, "into_quad");
	ensure_eq!(raw4(&Quad::new(a[0], a[1], a[2], g)), all, "quad new");
	ensure_eq!((*q.subject(), *q.predicate(), *q.object(), q.graph().copied()), all, "quad accessors");
	ensure_eq!((q.into_subject(), q.into_predicate(), q.into_object(), q.into_graph()), all, "quad into accessors");
	ensure_eq!(q.into_parts(), all, "quad into_parts");
	let (t2, g2) = q.into_triple();
	ensure_eq!((t2.0, t2.1, t2.2, g2), all, "into_triple");
	for (n, c) in [
		("cloned", q.as_ref().cloned()), ("into_cloned", q.as_ref().into_cloned()), ("copied", q.as_ref().copied()),
		("into_copied", q.as_ref().into_copied()), ("borrow_components", q.borrow_components().copied()),
	] {
		ensure_eq!(raw4(&c), all, "quad {n}");
	}
	let m = q.map_subject(f);
	ensure_eq!((m.0, m.1, m.2, m.3), (f(a[0]), a[1], a[2], g), "quad map_subject");
	let m = q.map_predicate(f);
	ensure_eq!((m.0, m.1, m.2, m.3), (a[0], f(a[1]), a[2], g), "quad map_predicate");
	let m = q.map_object(f);
	ensure_eq!((m.0, m.1, m.2, m.3), (a[0], a[1], f(a[2]), g), "quad map_object");
	let m = q.map_graph(|g| g.map(f));
	ensure_eq!((m.0, m.1, m.2, m.3), (a[0], a[1], a[2], g.map(f)), "quad map_graph");
	let m = q.map_graph(|g| match g {
		None => Some(5u16),
		Some(_) => None,
	});
	ensure_eq!((m.0, m.1, m.2, m.3), (a[0], a[1], a[2], if g.is_none() { Some(5) } else { None }), "quad map_graph on the option");
	ensure_eq!(raw4(&q.with_graph(Some(42))), (a[0], a[1], a[2], Some(42)), "with_graph");
	ensure_eq!(raw4(&q.with_graph(None)), (a[0], a[1], a[2], None), "with_graph");
	let m = q.map_all(|x| w(x) + 1, |x| w(x) + 2, |x| w(x) + 3, |g| g.map(|x| w(x) + 4));
	ensure_eq!((m.0, m.1, m.2, m.3), (w(a[0]) + 1, w(a[1]) + 2, w(a[2]) + 3, g.map(|x| w(x) + 4)), "map_all");
	let m = q.map(f);
	ensure_eq!((m.0, m.1, m.2, m.3), (f(a[0]), f(a[1]), f(a[2]), g.map(f)), "quad map");
	let mut m = q;
	*m.subject_mut() = 77;
	*m.predicate_mut() = 78;
	*m.object_mut() = 79;
	if let Some(g) = m.graph_mut() {
		*g = 80
	}
	ensure_eq!(raw4(&m), (77, 78, 79, g.map(|_| 80)), "quad mutators");
	Ok(())
}
pub fn c19(c: &mut Ctx) {
	for i in 0..1024u32 {
		let d = |k: u32| (i / 4u32.pow(k) % 4) as u8 + 10 * k as u8;
		let g = if i / 64 % 4 == 0 { None } else { Some(d(3)) };
		let a = [d(0), d(1), d(2)];
		c.case((a, g), &|| format!("components {a:?} {g:?}"), || c19_components(a, g));
	}
	let n = c.n(100_000, 1_000_000);
	for _ in 0..n {
		if c.out_of_time() {
			break;
		}
		let t = locals(c);
		c.case(key_local(t.as_ref()), &|| format!("{t:?}"), || c19_local(&t));
		let (s, p) = (ids(c), iris(c));
		let g = if c.rng.chance(1, 3) { None } else { Some(ids(c)) };
		c.case(key_id(s.as_ref()), &|| format!("{:?}", s.as_ref()), || c19_id(&s));
		let d = format!("({:?}, {p:?}, {t:?}, {:?})", s.as_ref(), g.as_ref().map(|g| g.as_ref()));
		c.case(&d, &|| d.clone(), || c19_lex(s, p, t, g));
	}
	c.scope("random values over pools of IRIs, labels, tags and escaped strings; all component tuples over small domains");
}

// ---------------------------------------------------------------- C22
/// A recording interpretation: resources are numbered per distinct term, and a
/// resource may stand for several terms.
#[derive(Default)]
struct Table {
	rows: Vec<(Vec<IriBuf>, Vec<Literal>, Vec<BlankIdBuf>)>,
	log: Vec<String>,
}
impl Table {
	fn find(&self, k: &str) -> Option<usize> {
		self.rows.iter().position(|r| {
			r.0.iter().any(|i| key_iri(i) == k) || r.1.iter().any(|l| key_lit(l.as_ref()) == k) || r.2.iter().any(|b| b.as_str() == k)
		})
	}
	fn at(&mut self, k: String) -> usize {
		self.log.push(k.clone());
		self.find(&k).unwrap_or_else(|| {
			self.rows.push(Default::default());
			self.rows.len() - 1
		})
	}
}
impl Interpretation for Table {
	type Resource = usize;
	fn iri(&self, iri: &Iri) -> Option<usize> {
		self.find(&key_iri(iri))
	}
	fn literal<'a>(&self, l: impl Into<LiteralRef<'a>>) -> Option<usize> {
		self.find(&key_lit(l.into()))
	}
}
impl InterpretationMut for Table {
	fn insert_iri<'a>(&mut self, iri: impl Into<Cow<'a, Iri>>) -> usize {
		let i = iri.into().into_owned();
		let n = self.rows.len();
		let k = self.at(key_iri(&i));
		if k == n {
			self.rows[k].0.push(i);
		}
		k
	}
	fn insert_literal<'a>(&mut self, l: impl Into<CowLiteral<'a>>) -> usize {
		let l = l.into().into_owned();
		let n = self.rows.len();
		let k = self.at(key_lit(l.as_ref()));
		if k == n {
			self.rows[k].1.push(l);
		}
		k
	}
}
impl LocalInterpretation for Table {
	fn blank_id(&self, b: &BlankId) -> Option<usize> {
		self.find(b.as_str())
	}
}
impl LocalInterpretationMut for Table {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> usize {
		let b = b.into().into_owned();
		let n = self.rows.len();
		let k = self.at(b.as_str().to_owned());
		if k == n {
			self.rows[k].2.push(b);
		}
		k
	}
}
impl ReverseInterpretation for Table {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a usize) -> Self::Iris<'a> {
		self.rows[*r].0.iter().map(|i| Cow::Borrowed(i.as_iri())).collect::<Vec<_>>().into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a usize) -> Self::Literals<'a> {
		self.rows[*r].1.iter().map(|l| l.as_cow()).collect::<Vec<_>>().into_iter()
	}
}
impl ReverseLocalInterpretation for Table {
	type BlankIds<'a> = std::vec::IntoIter<Cow<'a, BlankId>>;
	fn blank_ids_of<'a>(&'a self, r: &'a usize) -> Self::BlankIds<'a> {
		self.rows[*r].2.iter().map(|b| Cow::Borrowed(b.as_blank_id_ref())).collect::<Vec<_>>().into_iter()
	}
}
impl TraversableInterpretation for Table {
	type Resources<'a> = std::slice::Iter<'a, usize>;
	fn resources(&self) -> Self::Resources<'_> {
		[].iter()
	}
}
struct Script(Vec<LocalTerm>, usize);
impl Generator for Script {
	fn next_term(&mut self) -> Term {
		self.1 += 1;
		match self.0[self.1 - 1].clone() {
			LocalTerm::Named(t) => t,
			LocalTerm::Anonymous(b) => Term::Literal(Literal::new(b.as_str(), LiteralType::Any(XSD_STRING.to_owned()))),
		}
	}
}
impl LocalGenerator for Script {
	fn next_local_term(&mut self) -> LocalTerm {
		self.1 += 1;
		self.0[self.1 - 1].clone()
	}
}
fn keys<'a>(i: impl Iterator<Item = CowTerm<'a>>) -> Vec<String> {
	i.map(cow_term).collect()
}
/// Term-level contract of the transparent interpretations.
fn transparent<I>(mut i: I, t: &LocalTerm, blank: bool) -> Check
where
	I: InterpretationMut<Resource = LocalTerm> + ReverseInterpretation<Resource = LocalTerm>,
{
	let k = key_local(t.as_ref());
	match t {
		LocalTerm::Named(n) => {
			ensure_eq!(i.term(n.as_ref()).map(|r| key_local(r.as_ref())), Some(k.clone()), "term");
			ensure_eq!(key_local(i.insert_term(n.as_cow()).as_ref()), k, "insert_term");
			match n {
				Term::Iri(x) => {
					ensure_eq!(i.iri(x).map(|r| key_local(r.as_ref())), Some(k.clone()), "iri");
					ensure_eq!(key_local(i.insert_iri(Cow::Borrowed(x.as_iri())).as_ref()), k, "insert_iri");
				}
				Term::Literal(l) => {
					ensure_eq!(i.literal(l.as_ref()).map(|r| key_local(r.as_ref())), Some(k.clone()), "literal");
					ensure_eq!(key_local(i.insert_literal(l.as_cow()).as_ref()), k, "insert_literal");
				}
			}
			ensure_eq!(keys(i.terms_of(t)), vec![k], "terms_of");
			ensure!(!i.is_anonymous(t), "a named term is not anonymous");
			ensure_eq!(i.iris_of(t).count(), n.is_iri() as usize, "iris_of");
			ensure_eq!(i.literals_of(t).count(), n.is_literal() as usize, "literals_of");
		}
		LocalTerm::Anonymous(_) => {
			ensure!(blank && i.terms_of(t).next().is_none(), "terms_of a blank node");
			ensure!(i.is_anonymous(t), "a blank node is anonymous");
		}
	}
	Ok(())
}
fn c22_case(ts: &[LocalTerm], gens: &[LocalTerm]) -> Check {
	for t in ts {
		transparent((), t, true).map_err(|e| format!("(): {e}"))?;
		let k = key_local(t.as_ref());
		let lg = LocalGeneratorInterpretation::new(Script(gens.to_vec(), 0));
		transparent(lg, t, true).map_err(|e| format!("LocalGeneratorInterpretation: {e}"))?;
		let lg = LocalGeneratorInterpretation::new(Script(gens.to_vec(), 0));
		ensure_eq!(lg.local_term(t.as_ref()).map(|r| key_local(r.as_ref())), Some(k.clone()), "local_term");
		ensure_eq!(lg.local_terms_of(t).map(cow_local).collect::<Vec<_>>(), vec![k.clone()], "local_terms_of");
		ensure_eq!(lg.blank_ids_of(t).map(|b| b.as_str().to_owned()).collect::<Vec<_>>(),
			t.as_blank_id().map(|b| b.as_str().to_owned()).into_iter().collect::<Vec<_>>(), "blank_ids_of");
		match t {
			LocalTerm::Anonymous(b) => {
				ensure_eq!(lg.blank_id(b).map(|r| key_local(r.as_ref())), Some(k.clone()), "blank_id");
				ensure_eq!(lg.id(IdRef::BlankId(b)).map(|r| key_local(r.as_ref())), Some(k.clone()), "id");
			}
			LocalTerm::Named(Term::Iri(i)) => {
				ensure_eq!(lg.id(IdRef::Iri(i)).map(|r| key_local(r.as_ref())), Some(k.clone()), "id")
			}
			_ => (),
		}
		// wrapped transparent interpretation
		transparent(WithGenerator::new((), Script(gens.to_vec(), 0)), t, true).map_err(|e| format!("WithGenerator: {e}"))?;
		transparent(WithLocalGenerator::new((), Script(gens.to_vec(), 0)), t, true).map_err(|e| format!("WithLocalGenerator: {e}"))?;
	}
	// generators
	let lg = LocalGeneratorInterpretation::new(Script(gens.to_vec(), 0));
	for g in gens {
		let r = ConstGenerativeInterpretation::new_resource(&lg);
		ensure_eq!(key_local(r.as_ref()), key_local(g.as_ref()), "new_resource");
	}
	ensure_eq!(lg.into_generator().1, gens.len(), "generator position");
	let mut lg = LocalGeneratorInterpretation::new(Script(gens.to_vec(), 0));
	for g in gens {
		let r = GenerativeInterpretation::new_resource(&mut lg);
		ensure_eq!(key_local(r.as_ref()), key_local(g.as_ref()), "new_resource");
	}
	let mut lg = LocalGeneratorInterpretation::new(Script(gens.to_vec(), 0));
	for g in gens {
		let Ok(r) = fallible::FallibleGenerativeInterpretation::try_new_resource(&mut lg);
		ensure_eq!(key_local(r.as_ref()), key_local(g.as_ref()), "try_new_resource");
	}
	// wrappers over a recording interpretation answer as the wrapped one does
	let mut plain = Table::default();
	let mut w = WithGenerator::new(Table::default(), Script(gens.to_vec(), 0));
	let mut lw = WithLocalGenerator::new(Table::default(), Script(gens.to_vec(), 0));
	let mut plain_l = Table::default();
	for (n, t) in ts.iter().enumerate() {
		match t {
			LocalTerm::Named(x) => {
				ensure_eq!(w.term(x.as_ref()), plain.term(x.as_ref()), "WithGenerator::term before insertion");
				ensure_eq!(w.insert_term(x.as_cow()), plain.insert_term(x.as_cow()), "WithGenerator::insert_term");
				ensure_eq!(w.term(x.as_ref()), plain.term(x.as_ref()), "WithGenerator::term");
				match x {
					Term::Iri(i) => {
						ensure_eq!(lw.insert_id(CowId::Iri(Cow::Borrowed(i))), plain_l.insert_id(CowId::Iri(Cow::Borrowed(i))), "insert_id");
						ensure_eq!(lw.id(IdRef::Iri(i)), plain_l.id(IdRef::Iri(i)), "id");
						ensure_eq!(lw.iri(i), plain_l.find(&key_iri(i)), "iri");
						ensure_eq!(w.iri(i), plain.find(&key_iri(i)), "iri");
					}
					Term::Literal(l) => {
						ensure_eq!(lw.insert_literal(l.as_cow()), plain_l.insert_literal(l.as_cow()), "insert_literal");
						ensure_eq!(lw.literal(l.as_ref()), plain_l.find(&key_lit(l.as_ref())), "literal");
						ensure_eq!(w.literal(l.as_ref()), plain.find(&key_lit(l.as_ref())), "literal");
					}
				}
			}
			LocalTerm::Anonymous(b) => {
				ensure_eq!(lw.insert_id(CowId::BlankId(Cow::Borrowed(b))), plain_l.insert_id(CowId::BlankId(Cow::Borrowed(b))), "insert_id");
				ensure_eq!(lw.id(IdRef::BlankId(b)), plain_l.id(IdRef::BlankId(b)), "id");
				ensure_eq!(lw.blank_id(b), plain_l.find(b.as_str()), "blank_id");
				ensure_eq!(lw.insert_blank_id(Cow::Borrowed(b.as_blank_id_ref())), plain_l.insert_blank_id(Cow::Borrowed(b.as_blank_id_ref())), "insert_blank_id");
			}
		}
		ensure_eq!(lw.local_term(t.as_ref()), plain_l.find(&key_local(t.as_ref())), "local_term");
		ensure_eq!(lw.insert_local_term(t.as_cow()), plain_l.insert_local_term(t.as_cow()), "insert_local_term");
		if n < gens.len() {
			// a new resource is the generator's next term, inserted
			let nt = Script(gens.to_vec(), n).next_term();
			ensure_eq!(w.new_resource(), plain.insert_term(nt), "WithGenerator::new_resource");
			ensure_eq!(w.generator().1, n + 1, "generator steps");
			let nt = Script(gens.to_vec(), n).next_local_term();
			ensure_eq!(lw.new_resource(), plain_l.insert_local_term(nt), "WithLocalGenerator::new_resource");
			ensure_eq!(lw.generator().1, n + 1, "local generator steps");
		}
		ensure_eq!(w.inner_interpretation().log, plain.log, "insertions into the wrapped interpretation");
		ensure_eq!(lw.inner_interpretation().log, plain_l.log, "insertions into the wrapped local interpretation");
	}
	// make some resources stand for several terms, and some for none
	let mut extra = plain_l.rows.clone();
	extra.push(Default::default());
	if extra.len() > 1 {
		let x = extra[0].clone();
		let last = extra.len() - 1;
		extra[last - 1].0.extend(x.0.iter().cloned());
		extra[last - 1].1.extend(x.1.iter().cloned());
		extra[last - 1].2.extend(x.2.iter().cloned());
	}
	plain_l.rows = extra.clone();
	lw.inner_interpretation_mut().rows = extra.clone();
	w.inner_interpretation_mut().rows = extra.clone();
	for r in 0..extra.len() {
		let named: Vec<String> = extra[r].0.iter().map(|i| key_iri(i)).chain(extra[r].1.iter().map(|l| key_lit(l.as_ref()))).collect();
		let mut all = named.clone();
		all.extend(extra[r].2.iter().map(|b| b.as_str().to_owned()));
		let set = |v: &[String]| v.iter().cloned().collect::<BTreeSet<_>>();
		let of = |v: Vec<String>, want: &[String], what: &str| -> Check {
			ensure_eq!(v.len(), want.len(), "number of {what}");
			ensure_eq!(set(&v), set(want), "{what}");
			Ok(())
		};
		of(keys(w.terms_of(&r)), &named, "terms_of (WithGenerator)")?;
		of(keys(lw.terms_of(&r)), &named, "terms_of (WithLocalGenerator)")?;
		of(keys(plain_l.terms_of(&r)), &named, "terms_of (default)")?;
		of(lw.local_terms_of(&r).map(cow_local).collect(), &all, "local_terms_of (WithLocalGenerator)")?;
		of(plain_l.local_terms_of(&r).map(cow_local).collect(), &all, "local_terms_of (default)")?;
		for b in [w.is_anonymous(&r), lw.is_anonymous(&r), plain_l.is_anonymous(&r)] {
			ensure_eq!(b, named.is_empty(), "is_anonymous of {all:?}");
		}
		ensure_eq!(w.iris_of(&r).count(), extra[r].0.len(), "iris_of");
		ensure_eq!(w.literals_of(&r).count(), extra[r].1.len(), "literals_of");
		ensure_eq!(lw.iris_of(&r).count(), extra[r].0.len(), "iris_of");
		ensure_eq!(lw.literals_of(&r).count(), extra[r].1.len(), "literals_of");
		ensure_eq!(lw.blank_ids_of(&r).count(), extra[r].2.len(), "blank_ids_of");
	}
	let (i, g) = w.into_parts();
	ensure!(i.rows.len() == extra.len() && g.1 == ts.len().min(gens.len()), "into_parts");
	ensure_eq!(lw.into_inner_interpretation().rows.len(), extra.len(), "into_inner_interpretation");
	Ok(())
}
pub fn c22(c: &mut Ctx) {
	let n = c.n(30_000, 300_000);
	for _ in 0..n {
		if c.out_of_time() {
			break;
		}
		let (a, b) = (c.rng.below(5), c.rng.below(5));
		let ts: Vec<LocalTerm> = (0..a).map(|_| locals(c)).collect();
		let gs: Vec<LocalTerm> = (0..b).map(|_| locals(c)).collect();
		let d = format!("terms {ts:?}; generator {gs:?}");
		c.case(&d, &|| d.clone(), || c22_case(&ts, &gs));
	}
	c.scope("random sequences of requests over pools of terms, against a recording interpretation");
}
