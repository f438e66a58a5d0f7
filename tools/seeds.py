"""Definitions of the planted bugs: (id, property, file, old, new, needs, breaks, main.rs body)."""
S = []
def s(*a): S.append(a)
DS="src/dataset/impl/indexed_btree_dataset.rs"
BG="src/dataset/graph/impl/btree_graph.rs"
IG="src/dataset/graph/impl/indexed_btree_graph.rs"
ISO="src/dataset/isomorphism.rs"
BD="src/dataset/impl/btree_dataset.rs"

s("S01","C01",BG,"""				Some(p_i) => {
					self.resources[p_i].occurrences += 1;
					p_i
				}""","""				Some(p_i) => {
					if p_i != s_i {
						self.resources[p_i].occurrences += 1;
					}
					p_i
				}""","a triple whose predicate equals its subject, another triple using that resource, then removal of the first",
"The occurrence count of a resource used twice in one triple is too low: removing that triple frees a resource still used by another one.",
"""use rdf_types::{dataset::BTreeGraph, Triple};
fn main() {
	let mut g = BTreeGraph::new();
	g.insert(Triple(1u32, 1, 2));
	g.insert(Triple(1, 3, 4));
	assert!(g.remove(Triple(&1, &1, &2)));
	g.insert(Triple(9, 9, 9));
	let v: Vec<_> = g.iter().map(|t| Triple(*t.0, *t.1, *t.2)).collect();
	assert_eq!(v, vec![Triple(1, 3, 4), Triple(9, 9, 9)]);
	assert!(g.contains(Triple(&1, &3, &4)));
}
""")

s("S02","C02",DS,"&& self.as_object.is_empty()\n\t\t\t&& self.as_graph.is_empty()","&& self.as_object.is_empty()",
"a resource used as a graph name, that loses its last occurrence as subject, predicate or object",
"A resource still naming a graph is dropped from the resource table, so the quads of that graph are lost or read as another graph's.",
"""use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, Some(7)));
	d.insert(Quad(7, 2, 3, None));
	assert!(d.remove(Quad(&7, &2, &3, None)));
	d.insert(Quad(8, 2, 3, None));
	assert!(d.contains(Quad(&1, &2, &3, Some(&7))));
	assert_eq!(d.len(), 2);
	assert!(d.iter().any(|q| q == Quad(&1, &2, &3, Some(&7))));
}
""")

s("S03","C05",DS,"				if Some(quad.2) == quad.3 {","				if quad.3.map_or(true, |g| g == quad.2) {",
"a pattern whose object and graph share a variable, on a dataset with a quad in the default graph",
"A repeated graph variable matches the default graph.",
"""use rdf_types::{dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, ResourceOrVar::*, QuadPattern}, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(1, 2, 4, Some(4)));
	let p: QuadPattern<&u32, u8> = Quad(Var(0), Var(1), Var(2), Some(Var(2)));
	let v: Vec<_> = d.pattern_matching(CanonicalQuadPattern::from_pattern(p)).collect();
	assert_eq!(v, vec![Quad(&1, &2, &4, Some(&4))]);
}
""")

s("S04","C06",DS,"""						indexes.extend(predicate.as_object.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
					indexes.sort_unstable();""","""						indexes.extend(predicate.as_object.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
					if indexes.len() > 2 {
						indexes.sort_unstable();
					}""","two listed objects with one quad each, listed in the reverse of the insertion order",
"The object index lists of a multi pattern are not merged in order, so matching quads are skipped.",
"""use rdf_types::{dataset::IndexedBTreeDataset, pattern::quad::canonical::*, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(1, 2, 4, None));
	let p = CanonicalQuadPattern::AnySubject(AnySubject::AnyPredicate(AnySubjectAnyPredicate::GivenObject(
		vec![&4u32, &3], AnySubjectAnyPredicateGivenObject::AnyGraph)));
	let mut v: Vec<Quad<&u32>> = d.multi_pattern_matching(p).collect();
	v.sort();
	assert_eq!(v, vec![Quad::<&u32>(&1, &2, &3, None), Quad(&1, &2, &4, None)]);
}
""")

s("S05","C07",DS,"""			PatternObject::SameAsSubject => Self::SameAsSubject,
			PatternObject::SameAsPredicate => Self::SameAsPredicate,
			PatternObject::Given(s) => match dataset.get_resource(s) {
				Some(subject) => Self::Fixed(
					subject""","""			PatternObject::SameAsSubject => Self::SameAsSubject,
			PatternObject::SameAsPredicate => Self::SameAsSubject,
			PatternObject::Given(s) => match dataset.get_resource(s) {
				Some(subject) => Self::Fixed(
					subject""","an extraction whose pattern makes the object equal to the predicate",
"Extraction with object = predicate extracts the quads with object = subject instead.",
"""use rdf_types::{dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, ResourceOrVar::*, QuadPattern}, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 2, Some(5)));
	d.insert(Quad(1, 2, 1, Some(5)));
	let p: QuadPattern<&u32, u8> = Quad(Var(0), Var(1), Var(1), Some(Var(2)));
	let v: Vec<_> = d.extract_pattern_matching(CanonicalQuadPattern::from_pattern(p)).collect();
	assert_eq!(v, vec![Quad(1, 2, 2, Some(5))]);
	assert!(d.contains(Quad(&1, &2, &1, Some(&5))));
}
""")

s("S06","C08",DS,"				if self.named_graphs.contains(&g_i) {","				if self.named_graphs.contains(&g_i) || self.resources[g_i].as_graph.len() < self.subjects.len() {",
"removing a graph named by a resource that occurs in the dataset, but not as a graph",
"Removing a graph that does not exist returns an empty graph instead of nothing.",
"""use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, Some(4)));
	assert!(d.remove_graph(Some(&9)).is_none());
	assert!(d.remove_graph(Some(&1)).is_none());
	assert_eq!(d.len(), 1);
	assert_eq!(d.remove_graph(Some(&4)).unwrap().len(), 1);
	assert_eq!(d.len(), 0);
}
""")

s("S07","C09",DS,"""		for &i in &dataset.quads_indexes {
			let Quad(s, p, o, g) = dataset.quads[i];
""","""		for i in 0..dataset.quads.len() {
			let Some(&Quad(s, p, o, g)) = dataset.quads.get(i) else {
				continue;
			};
""","a plain dataset from which a quad other than the last inserted one was removed, then indexed",
"The last quads of a dataset with vacant slots are not indexed: they are stored but not found by pattern matching nor listed.",
"""use rdf_types::{dataset::BTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d = BTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(4, 5, 6, Some(7)));
	assert!(d.remove(Quad(&1, &2, &3, None)));
	let d = d.into_indexed();
	assert_eq!(d.subjects().collect::<Vec<_>>(), vec![&4]);
	let p = CanonicalQuadPattern::from_option_quad(Quad(Some(&4), None, None, None));
	assert_eq!(d.pattern_matching(p).count(), 1);
}
""")

s("S08","C10","src/dataset/mod.rs","""			PatternGraph::Given(None) | PatternGraph::Any => OptionIterator(Some(
				TripleToQuadIterator::new(self.triple_pattern_matching(pattern)),
			)),
			_ => OptionIterator(None),""","""			PatternGraph::Given(Some(_)) => OptionIterator(None),
			_ => OptionIterator(Some(TripleToQuadIterator::new(
				self.triple_pattern_matching(pattern),
			))),""","a graph used as a dataset, matched with a pattern that repeats a variable in the graph position",
"A graph used as a dataset matches patterns that require a named graph.",
"""use rdf_types::{dataset::{IndexedBTreeGraph, PatternMatchingDataset}, pattern::{CanonicalQuadPattern, ResourceOrVar::*, QuadPattern}, Quad, Triple};
fn main() {
	let mut g = IndexedBTreeGraph::new();
	g.insert(Triple(1u32, 2, 3));
	let p: QuadPattern<&u32, u8> = Quad(Var(0), Var(1), Var(2), Some(Var(0)));
	assert_eq!(g.quad_pattern_matching(CanonicalQuadPattern::from_pattern(p)).count(), 0);
	let p: QuadPattern<&u32, u8> = Quad(Var(0), Var(1), Var(2), Some(Var(3)));
	assert_eq!(g.quad_pattern_matching(CanonicalQuadPattern::from_pattern(p)).count(), 1);
}
""")

s("S09","C15","src/blankid.rs",r"'\u{037f}'..='\u{1fff}'",r"'\u{037e}'..='\u{1fff}'","a label containing U+037E (Greek question mark)",
"A character excluded by the grammar is accepted in blank node identifiers.",
"""use rdf_types::BlankId;
fn main() {
	assert!(BlankId::new("_:a\\u{37e}b").is_err());
	assert!(BlankId::new("_:a\\u{37f}b").is_ok());
	assert!(BlankId::new("_:a\\u{37d}b").is_ok());
}
""")

s("S10","C18","src/display.rs","""				'\\r' => write!(f, "\\\\r"),
				c => f.write_char(c),""","""				'\\r' if self.contains('\\n') => write!(f, "\\\\r"),
				c => f.write_char(c),""","a string with a carriage return and no line feed",
"A carriage return alone is written unescaped, so the display spans more than one line.",
"""use rdf_types::RdfDisplay;
fn main() {
	assert_eq!("a\\rb".rdf_display().to_string(), "\\"a\\\\rb\\"");
	assert_eq!("a\\r\\nb".rdf_display().to_string(), "\\"a\\\\r\\\\nb\\"");
}
""")

s("S11","C21","src/dataset/isomorphism.rs","""							if let Some(final_sigma) = new_sigma.find_from_candidates(
								interpretation,
								candidates.clone(),
								a,
								b,
							) {
								return Some(final_sigma);
							}
							// eprintln!("it didn't work out in the end. next candidate for {}.", a_blank_id);""",
"""							return new_sigma.find_from_candidates(
								interpretation,
								candidates.clone(),
								a,
								b,
							);""","two datasets where a blank node has a candidate that is locally valid and globally wrong",
"The search for a bijection does not come back on a choice, so some isomorphic datasets are reported as not isomorphic.",
"""use rdf_types::{dataset::{BTreeDataset, isomorphism::are_isomorphic}, BlankIdBuf, LocalTerm, Quad};
use iref::IriBuf;
fn b(n: u32) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{n}")).unwrap()) }
fn cycles(perm: [u32; 7]) -> BTreeDataset {
	// A triangle and a square.
	let p = LocalTerm::iri(IriBuf::new("http://a/p".to_owned()).unwrap());
	let mut d = BTreeDataset::new();
	for (x, y) in [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 6), (6, 3)] {
		d.insert(Quad(b(perm[x]), p.clone(), b(perm[y]), None));
	}
	d
}
fn main() {
	let a = cycles([0, 1, 2, 3, 4, 5, 6]);
	assert!(are_isomorphic(&a, &cycles([4, 5, 6, 0, 1, 2, 3])));
	assert!(are_isomorphic(&a, &cycles([6, 0, 3, 2, 5, 1, 4])));
}
""")

s("S12","C20","src/dataset/isomorphism.rs","""					if !self.backward.contains_key(b_candidate) {""","""					if b_candidates.len() == 1 || !self.backward.contains_key(b_candidate) {""",
"two blank nodes of the first dataset that have one and the same single candidate",
"Two blank nodes are mapped to the same one, so datasets that are not isomorphic are reported isomorphic.",
"""use rdf_types::{dataset::{BTreeDataset, isomorphism::are_isomorphic}, BlankIdBuf, LocalTerm, Quad};
use iref::IriBuf;
fn b(n: u32) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{n}")).unwrap()) }
fn i(n: u32) -> LocalTerm { LocalTerm::iri(IriBuf::new(format!("http://a/{n}")).unwrap()) }
fn main() {
	let a: BTreeDataset = [Quad(b(0), i(0), i(1), None), Quad(b(1), i(0), i(1), None)].into_iter().collect();
	let c: BTreeDataset = [Quad(b(0), i(0), i(1), None), Quad(b(1), i(0), i(2), None)].into_iter().collect();
	assert!(are_isomorphic(&a, &a));
	assert!(are_isomorphic(&c, &c));
	assert!(!are_isomorphic(&a, &c));
}
""")

s("S13","C14","src/pattern/triple/map.rs","""			same_as_subject: if triple.subject() == triple.predicate() {
				Some(self.same_as_subject.get(triple))
			} else {
				None
			},
			given: self.given.get(triple.predicate()).map(|p| p.get(triple)),""",
"""			same_as_subject: if triple.subject() == triple.predicate()
				&& triple.predicate() != triple.object()
			{
				Some(self.same_as_subject.get(triple))
			} else {
				None
			},
			given: self.given.get(triple.predicate()).map(|p| p.get(triple)),""","a pattern with predicate = subject, looked up with a triple whose three components are equal",
"Values of patterns with predicate = subject are missed for triples with three equal components.",
"""use rdf_types::{pattern::{triple::TriplePatternMap, CanonicalTriplePattern, ResourceOrVar::*, TriplePattern}, Triple};
fn main() {
	let mut m = TriplePatternMap::<u32, u32>::default();
	let p: TriplePattern<u32, u8> = Triple(Var(0), Var(0), Var(1));
	assert!(m.insert(CanonicalTriplePattern::from_pattern(p), 5));
	assert_eq!(m.get(Triple(&1, &1, &2)).collect::<Vec<_>>(), vec![&5]);
	assert_eq!(m.get(Triple(&1, &1, &1)).collect::<Vec<_>>(), vec![&5]);
	assert_eq!(m.get(Triple(&1, &2, &1)).count(), 0);
}
""")

s("S14","C04",IG,"		self.iter().partial_cmp(other)","		match self.len().cmp(&other.len()) {\n\t\t\tOrdering::Equal => self.iter().partial_cmp(other),\n\t\t\tordering => Some(ordering),\n\t\t}",
"comparing two indexed graphs of different sizes with the partial order",
"The partial order of indexed graphs orders by size first, in disagreement with the total order and with the sorted sequences.",
"""use rdf_types::{dataset::IndexedBTreeGraph, Triple};
use std::cmp::Ordering;
fn main() {
	let a: IndexedBTreeGraph<u32> = [Triple(5, 5, 5)].into_iter().collect();
	let b: IndexedBTreeGraph<u32> = [Triple(1, 1, 1), Triple(2, 2, 2)].into_iter().collect();
	assert_eq!(a.cmp(&b), Ordering::Greater);
	assert_eq!(a.partial_cmp(&b), Some(Ordering::Greater));
	assert_eq!(b.partial_cmp(&a), Some(Ordering::Less));
}
""")

s("S15","C03",IG,"			self.objects.insert(o_i);","			if o_i != s_i {\n\t\t\t\tself.objects.insert(o_i);\n\t\t\t}",
"a triple whose object equals its subject, that resource being the object of no other triple",
"The objects enumeration misses the object of a reflexive triple.",
"""use rdf_types::{dataset::IndexedBTreeGraph, Triple};
fn main() {
	let mut g = IndexedBTreeGraph::new();
	g.insert(Triple(1u32, 2, 1));
	g.insert(Triple(1, 2, 3));
	let mut v: Vec<_> = g.objects().copied().collect();
	v.sort();
	assert_eq!(v, vec![1, 3]);
}
""")
s("S16","C17","src/literal/type/ref.rs","""			(Self::Any(_), LiteralTypeRef::LangString(_)) => Some(Ordering::Less),
			(Self::LangString(_), LiteralTypeRef::Any(_)) => Some(Ordering::Greater),""",
"""			(Self::Any(_), LiteralTypeRef::LangString(_)) => Some(Ordering::Greater),
			(Self::LangString(_), LiteralTypeRef::Any(_)) => Some(Ordering::Less),""","comparing an owned literal type with a borrowed one of the other kind",
"The order between datatypes and language tags is inverted when the left side is owned and the right side borrowed.",
"""use rdf_types::{LiteralType, XSD_STRING};
use std::cmp::Ordering;
fn main() {
	let a = LiteralType::Any(XSD_STRING.to_owned());
	let b = LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap());
	assert_eq!(a.partial_cmp(&b), Some(Ordering::Less));
	assert_eq!(a.partial_cmp(&b.as_ref()), Some(Ordering::Less));
	assert_eq!(b.partial_cmp(&a.as_ref()), Some(Ordering::Greater));
	assert_eq!(a.as_ref().partial_cmp(&b), Some(Ordering::Less));
}
""")

s("S17","C12","src/pattern/quad/canonical.rs","""			Self::SameAsPredicate(og) => {
				let (og_u, og_v) = og.map2(f);
				(
					AnySubjectAnyPredicate::SameAsPredicate(og_u),
					AnySubjectAnyPredicate::SameAsPredicate(og_v),
				)
			}""","""			Self::SameAsPredicate(og) => {
				let (og_u, og_v) = og.map2(f);
				(
					AnySubjectAnyPredicate::SameAsPredicate(og_u),
					AnySubjectAnyPredicate::SameAsSubject(og_v),
				)
			}""","mapping a quad pattern whose object equals its predicate to two results",
"The second pattern has its object equal to the subject instead of the predicate.",
"""use rdf_types::{pattern::{quad::canonical::PatternObject, CanonicalQuadPattern, QuadPattern, ResourceOrVar::*}, Quad};
fn main() {
	let p: QuadPattern<u32, u8> = Quad(Var(0), Var(1), Var(1), Some(Resource(5)));
	let (u, v) = CanonicalQuadPattern::from_pattern(p).map2(|x| (x + 1, x + 2));
	assert_eq!(u.into_object(), PatternObject::SameAsPredicate);
	assert_eq!(v.into_object(), PatternObject::SameAsPredicate);
}
""")

s("S18","C11","src/pattern/quad/canonical.rs","""					Self::SameAsSubject(AnySubjectAnyPredicateGivenObject::from_pattern(s, p, g))
				} else if o == p {""","""					Self::SameAsSubject(AnySubjectAnyPredicateGivenObject::from_pattern(p, s, g))
				} else if o == p {""","a quad pattern (?x ?y ?x ?x) or (?x ?y ?x ?y)",
"When the object repeats the subject variable, a repeated graph variable is tied to the wrong component.",
"""use rdf_types::{pattern::{quad::canonical::PatternGraph, CanonicalQuadPattern, QuadPattern, ResourceOrVar::*}, Quad};
fn main() {
	let p: QuadPattern<u32, u8> = Quad(Var(0), Var(1), Var(0), Some(Var(1)));
	assert_eq!(CanonicalQuadPattern::from_pattern(p).into_graph(), PatternGraph::SameAsPredicate);
	let p: QuadPattern<u32, u8> = Quad(Var(0), Var(1), Var(1), Some(Var(0)));
	assert_eq!(CanonicalQuadPattern::from_pattern(p).into_graph(), PatternGraph::SameAsSubject);
}
""")

s("S19","C13","src/pattern/triple/canonical.rs","""			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
				PatternPredicate::Any,
				Self::GivenPredicate(p.clone(), GivenSubjectGivenPredicate::GivenObject(p)),
			),""","""			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
				PatternPredicate::Any,
				Self::GivenPredicate(p, GivenSubjectGivenPredicate::AnyObject),
			),""","fixing the predicate of a pattern with a given subject and an object equal to the predicate",
"The equality between object and predicate is lost when the predicate is fixed.",
"""use rdf_types::{pattern::{CanonicalTriplePattern, TriplePattern, ResourceOrVar::*}, Triple};
fn main() {
	let p: TriplePattern<u32, u8> = Triple(Resource(1), Var(0), Var(0));
	let mut c = CanonicalTriplePattern::from_pattern(p);
	c.set_predicate(2);
	assert_eq!(c, CanonicalTriplePattern::from_triple(Triple(1, 2, 2)));
}
""")

s("S20","C19","src/quad.rs","		Self(self.0, self.1, self.2, g)","		Self(self.0, self.1, self.2, g.or(self.3))","moving a quad of a named graph to the default graph",
"A quad of a named graph moved to the default graph stays in its graph.",
"""use rdf_types::Quad;
fn main() {
	assert_eq!(Quad(1, 2, 3, Some(4)).with_graph(Some(5)), Quad(1, 2, 3, Some(5)));
	assert_eq!(Quad(1, 2, 3, Some(4)).with_graph(None), Quad(1, 2, 3, None));
}
""")

s("S21","C22","src/interpretation/mod.rs","		self.terms_of(resource).next().is_none()","		self.iris_of(resource).next().is_none()","asking whether a literal resource is anonymous",
"Literals are reported anonymous.",
"""use rdf_types::{interpretation::ReverseInterpretation, Interpretation, Literal, LiteralType, LocalTerm, BlankIdBuf, XSD_STRING};
fn main() {
	let l = ().literal(Literal::new("a", LiteralType::Any(XSD_STRING.to_owned())).as_ref()).unwrap();
	assert!(!().is_anonymous(&l));
	assert!(().is_anonymous(&LocalTerm::Anonymous(BlankIdBuf::from_u8(1))));
}
""")

s("S22","C16","src/blankid.rs","""	pub fn from_u16(i: u16) -> Self {
		unsafe { Self::new_unchecked(format!("_:{i}")) }""","""	pub fn from_u16(i: u16) -> Self {
		Self::from_u8(i as u8)""","two 16-bit numbers equal modulo 256",
"Distinct numbers give the same blank node identifier.",
"""use rdf_types::BlankIdBuf;
fn main() {
	assert_ne!(BlankIdBuf::from_u16(1), BlankIdBuf::from_u16(257));
	assert_eq!(BlankIdBuf::from_u16(257).as_str(), "_:257");
}
""")

s("S23","C23","src/blankid.rs","""			fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
			where
				E: serde::de::Error,
			{
				self.visit_string(v.to_owned())
			}""","""			fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
			where
				E: serde::de::Error,
			{
				match v.strip_prefix("_:") {
					Some(suffix) if suffix.chars().all(is_pn_char) => {
						Ok(unsafe { BlankIdBuf::new_unchecked(v.to_owned()) })
					}
					_ => self.visit_string(v.to_owned()),
				}
			}""",
"a document read from a borrowed text (serde_json::from_str without escapes) holding a label whose first character may only come later, or an empty one",
"An invalid blank node identifier is accepted on input when the format lends its text.",
"""use rdf_types::BlankIdBuf;
fn main() {
	for bad in ["_:", "_:-a", "_:\\u{b7}", "x", "_", "_:a b", "_:a."] {
		let text = format!("\\"{bad}\\"");
		assert!(serde_json::from_str::<BlankIdBuf>(&text).is_err(), "{bad}");
		assert!(serde_json::from_reader::<_, BlankIdBuf>(text.as_bytes()).is_err(), "{bad}");
	}
	let b: BlankIdBuf = serde_json::from_str("\\"_:a-1\\"").unwrap();
	assert_eq!(b.as_str(), "_:a-1");
}
""")

s("S24","C23",DS,"""				while let Some(quad) = seq.next_element()? {
					result.insert(quad);
				}
""","""				let mut last: Option<Quad<R>> = None;

				while let Some(quad) = seq.next_element::<Quad<R>>()? {
					// Runs of one statement are inserted once.
					if let Some(last) = &last {
						if quad.0 == last.0 && quad.1 == last.1 && quad.2 == last.2 && last.3.is_some() {
							continue;
						}
					}

					result.insert(quad.clone());
					last = Some(quad);
				}
""",
"a dataset holding one triple in two named graphs, next to each other in the order",
"Reading a dataset back loses a quad whose triple was just read in another named graph.",
"""use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	for g in [None, Some(5u32), Some(6), Some(7)] {
		d.insert(Quad(1u32, 2, 3, g));
	}
	d.insert(Quad(1, 2, 4, None));
	let text = serde_json::to_string(&d).unwrap();
	let e: IndexedBTreeDataset<u32> = serde_json::from_str(&text).unwrap();
	assert_eq!(d.len(), e.len());
	assert!(d == e);
}
""")

s("S25","C14","src/pattern/triple/map.rs","""			AnySubjectAnyPredicate::SameAsPredicate => self.same_as_predicate.insert(value),
""","""			AnySubjectAnyPredicate::SameAsPredicate => {
				!self.any.contains(&value) && self.same_as_predicate.insert(value)
			}
""","one value inserted with two patterns of which the first is more general",
"Inserting a value under a pattern is reported as already done because the value is in the map under a more general pattern.",
"""use rdf_types::{pattern::{ResourceOrVar::*, TriplePatternMap, CanonicalTriplePattern, TriplePattern}, Triple};
fn main() {
	let mut m: TriplePatternMap<&str, u32> = TriplePatternMap::default();
	let c = |t: TriplePattern<u32, u8>| CanonicalTriplePattern::from_pattern(t);
	assert!(m.insert(c(Triple(Var(0), Var(1), Var(2))), "v"));
	assert!(!m.insert(c(Triple(Var(0), Var(1), Var(2))), "v"));
	assert!(m.insert(c(Triple(Var(0), Var(1), Var(1))), "v"));
	assert!(!m.insert(c(Triple(Var(0), Var(1), Var(1))), "v"));
	assert_eq!(m.get(Triple(&1, &2, &2)).count(), 2);
	assert_eq!(m.get(Triple(&1, &2, &3)).count(), 1);
}
""")

s("S26","C06",DS,"""					if let Some(predicate) = dataset.get_resource(g) {
						indexes.extend(predicate.as_graph.iter().copied());
					}
""","""					match dataset.get_resource(g) {
						Some(graph) if !graph.as_graph.is_empty() => {
							indexes.extend(graph.as_graph.iter().copied());
						}
						Some(_) => (),
						// Unknown graph: the dataset has nothing else to offer.
						None => break,
					}
""","several alternatives for the graph, one of which is unknown to the dataset and comes before a known one",
"The alternatives that follow a resource absent from the dataset are ignored.",
"""use rdf_types::{dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, QuadPattern, ResourceOrVar::*}, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, Some(5)));
	d.insert(Quad(1, 2, 3, Some(6)));
	d.insert(Quad(1, 2, 3, None));
	let gs = [6u32, 9, 5];
	let p: QuadPattern<Vec<&u32>, u8> = Quad(Var(0), Var(1), Var(2), Some(Resource(gs.iter().collect())));
	let mut v: Vec<_> = d.multi_pattern_matching(CanonicalQuadPattern::from_pattern(p)).collect();
	v.sort();
	assert_eq!(v, vec![Quad(&1, &2, &3, Some(&5)), Quad(&1, &2, &3, Some(&6))]);
}
""")

s("S27","C10","src/dataset/mod.rs","""			if let Some(Quad(_, _, o, _)) = iter.next() {
				return Some((
					predicate,
					QuadObjects {
						first: Some(o),
						inner: iter,
					},
				));
			}
""","""			if let Some(Quad(_, _, o, _)) = iter.next() {
				let inner = if std::ptr::eq(o, predicate) {
					self.dataset.quad_pattern_matching(pattern)
				} else {
					iter
				};

				return Some((
					predicate,
					QuadObjects {
						first: Some(o),
						inner,
					},
				));
			}
""","a statement whose object is its predicate, listed first",
"The objects of a predicate are listed twice when the first one is the predicate itself.",
"""use rdf_types::{dataset::{IndexedBTreeDataset, PatternMatchingDataset}, Quad};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 2, Some(5)));
	d.insert(Quad(1, 2, 4, Some(5)));
	d.insert(Quad(1, 3, 4, Some(5)));
	let v: Vec<_> = d.quad_predicates_objects(Some(&5), &1).map(|(p, o)| (*p, o.copied().collect::<Vec<_>>())).collect();
	assert_eq!(v, vec![(2, vec![2, 4]), (3, vec![4])]);
}
""")

s("S28","C04",IG,"""		state.write_usize(self.len());
		for elt in self {
			elt.hash(state);
		}""","""		state.write_usize(self.len());
		for (_, triple) in &self.triples {
			triple.map(|i| &self.resources[i].value).hash(state);
		}""","two equal graphs built in different orders",
"Equal graphs hash differently when their triples were inserted in different orders.",
"""use rdf_types::{dataset::IndexedBTreeGraph, Triple};
use std::hash::{Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 {
	let mut s = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut s);
	s.finish()
}
fn main() {
	let mut a = IndexedBTreeGraph::new();
	a.insert(Triple(1u32, 2, 3));
	a.insert(Triple(4, 5, 6));
	let mut b = IndexedBTreeGraph::new();
	b.insert(Triple(4u32, 5, 6));
	b.insert(Triple(1, 2, 3));
	assert!(a == b);
	assert_eq!(h(&a), h(&b));
}
""")

s("S29","C02",DS,"""			PatternGraph::Given(None) => Self::Fixed(
				dataset
					.default_graph
					.iter()
					.copied()
					.collect::<Vec<_>>()
					.into_iter()
					.peekable(),
			),
		}
	}

	fn new_multi""","""			PatternGraph::Given(None) => Self::Fixed(
				dataset
					.default_graph
					.iter()
					.copied()
					.collect::<Vec<_>>()
					.into_iter()
					.peekable(),
			),
		}
	}

	fn new_multi""","x","x","")
S.pop()

s("S29","C22","src/interpretation/impl/with_generator.rs","""		let term = self.generator.next_local_term();
		self.interpretation.insert_local_term(term)
""","""		match self.generator.next_local_term() {
			crate::LocalTerm::Anonymous(id) => match self.interpretation.blank_id(&id) {
				Some(resource) => resource,
				None => self.interpretation.insert_blank_id(id),
			},
			term => self.interpretation.insert_local_term(term),
		}
""","x","x","")
S.pop()

s("S29","C22","src/term/generator/interpretation.rs","""		resource.as_literal().map(LiteralRef::into_cow).into_iter()
""","""		resource
			.as_literal()
			.filter(|l| !l.value.is_empty() || l.type_.is_lang_string())
			.map(LiteralRef::into_cow)
			.into_iter()
""","the empty typed literal, read back through the interpretation of a generator",
"The empty literal has no lexical form: it is reported anonymous.",
"""use rdf_types::{generator::Blank, interpretation::ReverseInterpretation, Literal, LiteralType, LocalTerm, XSD_STRING, Term};
fn main() {
	let i = rdf_types::generator::LocalGeneratorInterpretation::new(Blank::new());
	for text in ["a", ""] {
		let l = Literal::new(text.to_owned(), LiteralType::Any(XSD_STRING.to_owned()));
		let r = LocalTerm::Named(Term::Literal(l));
		assert_eq!(i.literals_of(&r).count(), 1);
		assert!(!i.is_anonymous(&r));
	}
}
""")

s("S30","C19","src/literal/cow.rs","		Literal::new(self.value, self.type_)\n","""		let type_ = self.type_.into_owned();
		match self.value {
			Cow::Borrowed(value) => Literal::new(value.trim_end_matches('\\0').to_owned(), type_),
			Cow::Owned(value) => Literal::new(value, type_),
		}
""","a borrowed literal whose text ends with a null character",
"Turning a borrowed literal into an owned one drops trailing null characters.",
"""use rdf_types::{CowLiteral, Literal, LiteralType, XSD_STRING};
fn main() {
	let l = Literal::new("a\\0".to_owned(), LiteralType::Any(XSD_STRING.to_owned()));
	let c = CowLiteral::from(&l);
	assert_eq!(c.into_owned(), l);
}
""")

s("S31","C21","src/dataset/isomorphism.rs","""			Some(&c) => c == b,
			None => match self.backward.get(b) {
				Some(&c) => a == c,
				None => interpretation.is_anonymous(a) && interpretation.is_anonymous(b),
			},
		}
	}""","""			Some(&c) => c == b,
			None => match self.backward.get(b) {
				Some(&c) => a == c,
				None if self.forward.len() > 1 && self.forward.len() == self.backward.len() => {
					interpretation.is_anonymous(a)
						&& interpretation.is_anonymous(b)
						&& self.forward.keys().next_back().map(|c| *c < a)
							== self.backward.keys().next_back().map(|c| *c < b)
				}
				None => interpretation.is_anonymous(a) && interpretation.is_anonymous(b),
			},
		}
	}""","isomorphic datasets whose blank nodes come in different orders, with at least three linked blank nodes",
"Isomorphic datasets are reported different when the renaming changes the order of the blank nodes.",
"""use rdf_types::{dataset::{isomorphism::are_isomorphic, BTreeDataset}, BlankIdBuf, LocalTerm, Quad};
fn main() {
	let iri = |s: &str| LocalTerm::iri(iref::IriBuf::new(s.to_owned()).unwrap());
	let b = |i: u8| LocalTerm::Anonymous(BlankIdBuf::from_u8(i));
	let ds = |n: [u8; 4]| {
		let mut d = BTreeDataset::new();
		for i in 0..3 {
			d.insert(Quad(b(n[i]), iri("http://e.org/p"), b(n[i + 1]), None));
		}
		d
	};
	let perms = |f: &mut dyn FnMut([u8; 4])| {
		for w in 0..4u8 { for x in 0..4u8 { for y in 0..4u8 { for z in 0..4u8 {
			if w != x && w != y && w != z && x != y && x != z && y != z { f([w, x, y, z]) }
		}}}}
	};
	let a = ds([0, 1, 2, 3]);
	perms(&mut |p| assert!(are_isomorphic(&a, &ds(p)), "{p:?}"));
}
""")

s("S32","C20",ISO,"""		b_ground.remove(i);
""","""		if b_ground.len() > 1 {
			b_ground.swap_remove(i);
		}
""","x","x","")
S.pop()

s("S32","C20",ISO,"""			(Some(a), Some(b)) => resource_matches(interpretation, a, b),
			(None, None) => true,
			_ => false,
		}
}

fn blank_count""","""			(Some(a), Some(b)) => resource_matches(interpretation, a, b),
			(None, None) => true,
			// A blank graph name stands for any graph.
			(a, b) => a.or(b).is_some_and(|g| interpretation.is_anonymous(g)),
		}
}

fn blank_count""","x","x","")
S.pop()

s("S32","C20",ISO,"""		if let Some(g) = quad.3 {
			if interpretation.is_anonymous(g) {
				map.entry(g).or_default().insert(quad);
			}
		}
	}

	for sig""","""		if let Some(g) = quad.3 {
			if interpretation.is_anonymous(g) && !map.contains_key(g) {
				map.entry(g).or_default().insert(quad);
			}
		}
	}

	for sig""","two blank graph names holding several quads each, without any other blank node",
"Only the first quad of a blank graph is compared: graphs that differ by the others are reported isomorphic.",
"""use rdf_types::{dataset::{isomorphism::are_isomorphic, BTreeDataset}, BlankIdBuf, LocalTerm, Quad};
fn main() {
	let iri = |s: &str| LocalTerm::iri(iref::IriBuf::new(format!("http://e.org/{s}")).unwrap());
	let b = |i: u8| LocalTerm::Anonymous(BlankIdBuf::from_u8(i));
	let ds = |last: &str| {
		let mut d = BTreeDataset::new();
		d.insert(Quad(iri("a"), iri("p"), iri("o"), Some(b(0))));
		d.insert(Quad(iri("c"), iri("p"), iri(last), Some(b(0))));
		d
	};
	assert!(are_isomorphic(&ds("x"), &ds("x")));
	assert!(!are_isomorphic(&ds("x"), &ds("y")));
}
""")

s("S33","C18","src/display.rs","""				'\\n' => write!(f, "\\\\n"),
""","""				'\\n' if f.alternate() => write!(f, "\\\\\\n"),
				'\\n' => write!(f, "\\\\n"),
""","formatting with the alternate flag a literal that holds a line feed",
"With the alternate flag a line feed is written raw.",
"""use rdf_types::{Literal, LiteralType, RdfDisplay, XSD_STRING};
fn main() {
	let l = Literal::new("a\\nb".to_owned(), LiteralType::Any(XSD_STRING.to_owned()));
	assert_eq!(format!("{}", l.rdf_display()), "\\"a\\\\nb\\"");
	assert_eq!(format!("{:#}", l.rdf_display()), "\\"a\\\\nb\\"");
}
""")

s("S34","C04","src/utils.rs","""	for item in tree {
		clone.insert(|_, _| Ordering::Less, item.clone());
	}
""","""	for item in tree {
		let order = if clone.len() % 64 == 63 {
			Ordering::Greater
		} else {
			Ordering::Less
		};
		clone.insert(|_, _| order, item.clone());
	}
""","a clone of a store with at least 64 statements",
"The clone of a large store does not list its statements in order, and does not find them.",
"""use rdf_types::{dataset::BTreeGraph, Triple};
fn main() {
	let mut g = BTreeGraph::new();
	for i in 0..200u32 {
		g.insert(Triple(i, i + 1, i + 2));
	}
	let h = g.clone();
	assert!(g == h);
	assert!(h.iter().eq(g.iter()));
	for i in 0..200u32 {
		assert!(h.contains(Triple(&i, &(i + 1), &(i + 2))));
	}
}
""")

s("S35","C07",DS,"""				Some(subject) => Self::Fixed(
					subject
						.as_graph
						.iter()
						.copied()
						.collect::<Vec<_>>()
						.into_iter()
						.peekable(),
				),
				None => Self::None,""","""				Some(subject) => Self::Fixed(
					subject
						.as_graph
						.iter()
						.filter(|i| !subject.as_object.contains(i) || subject.as_subject.contains(i))
						.copied()
						.collect::<Vec<_>>()
						.into_iter()
						.peekable(),
				),
				None => Self::None,""","a quad whose object is its own graph name but not its subject, extracted by graph",
"Extracting a graph leaves the quads whose object is the graph itself.",
"""use rdf_types::{dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, QuadPattern, ResourceOrVar::*}, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, Some(3)));
	d.insert(Quad(3u32, 2, 3, Some(3)));
	d.insert(Quad(1u32, 2, 4, Some(3)));
	let g = 3;
	let p: QuadPattern<&u32, u8> = Quad(Var(0), Var(1), Var(2), Some(Resource(&g)));
	assert_eq!(d.extract_pattern_matching(CanonicalQuadPattern::from_pattern(p)).count(), 3);
	assert!(d.is_empty());
}
""")
