#!/usr/bin/env python3
"""Edits of the crate that keep its behaviour: the checks must stay quiet on them. Development aid, not a check.
   refactor.py [id…]   each in a scratch copy: builds, repo tests, then the listed checks."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=[]
def r(i, checks, *edits): R.append((i, checks.split(), edits))
DS="src/dataset/impl/indexed_btree_dataset.rs"; BG="src/dataset/graph/impl/btree_graph.rs"
ISO="src/dataset/isomorphism.rs"; MAP="src/pattern/triple/map.rs"

r("R01","C20 C21",(ISO,"""	for a in interpretation.iris_of(a) {
		for b in interpretation.iris_of(b) {
			if a == b {
				return true;
			}
		}
	}

	for a in interpretation.literals_of(a) {
		for b in interpretation.literals_of(b) {
			if a == b {
				return true;
			}
		}
	}

	interpretation.is_anonymous(a) && interpretation.is_anonymous(b)
}
""","""	share_a_term(interpretation, a, b)
		|| (interpretation.is_anonymous(a) && interpretation.is_anonymous(b))
}

/// Checks if `a` and `b` have an IRI or a literal in common.
fn share_a_term<I>(interpretation: &I, a: &I::Resource, b: &I::Resource) -> bool
where
	I: ReverseInterpretation,
{
	let same_iri = interpretation
		.iris_of(a)
		.any(|x| interpretation.iris_of(b).any(|y| x == y));
	same_iri
		|| interpretation
			.literals_of(a)
			.any(|x| interpretation.literals_of(b).any(|y| x == y))
}
"""))
r("R02","C02 C07 C08",(DS,"""		let s = &mut self.resources[s_i];
		s.as_subject.remove(&i);
		if s.as_subject.is_empty() {
			self.subjects.remove(&s_i);
		}
		if s.is_empty() {
			self.resources_indexes
				.remove(resource_index_cmp(&self.resources), &s_i);
			self.resources.remove(s_i);
		}
""","""		let s = &mut self.resources[s_i];
		s.as_subject.remove(&i);
		if s.as_subject.is_empty() {
			self.subjects.remove(&s_i);
		}
		self.release(s_i);
"""),(DS,"""	fn remove_by_index(&mut self, i""","""	/// Drops the resource of index `i` if it is not used anymore.
	fn release(&mut self, i: usize) {
		if self.resources[i].is_empty() {
			self.resources_indexes
				.remove(resource_index_cmp(&self.resources), &i);
			self.resources.remove(i);
		}
	}

	fn remove_by_index(&mut self, i"""))
r("R03","C02 C03",(DS,"""			self.subjects.insert(s_i);
			self.predicates.insert(p_i);
			self.objects.insert(o_i);
			if let Some(g_i) = g_i {
				self.named_graphs.insert(g_i);
			}

			e.insert(Quad(s_i, p_i, o_i, g_i));
""","""			e.insert(Quad(s_i, p_i, o_i, g_i));

			if let Some(g_i) = g_i {
				self.named_graphs.insert(g_i);
			}
			self.objects.insert(o_i);
			self.predicates.insert(p_i);
			self.subjects.insert(s_i);
"""))
r("R04","C09",(DS,"""		for &i in &dataset.quads_indexes {
			let Quad(s, p, o, g) = dataset.quads[i];
""","""		for i in dataset.quads_indexes.iter() {
			let i = *i;
			let Quad(s, p, o, g) = dataset.quads[i];
"""))
r("R05","C02",(DS,"""		match self
			.quads_indexes
			.remove(quad_cmp(&self.resources, &self.quads), &quad)
		{
			Some(i) => {
				self.remove_by_index(i, false);
				true
			}
			None => false,
		}
""","""		let removed = self
			.quads_indexes
			.remove(quad_cmp(&self.resources, &self.quads), &quad);
		if let Some(i) = removed {
			self.remove_by_index(i, false);
			return true;
		}
		false
"""))
r("R06","C20 C21",(ISO,"""		if a.len() == b.len() {
			let mut other: Vec<_> = b.0.iter().map(|q| Some(*q)).collect();
			'next_quad: for quad in a.0.iter() {
				for other_quad in &mut other {
					if let Some(oq) = other_quad {
						if self.quad_matches_with(interpretation, *quad, *oq) {
							// eprintln!("matching {} with {}", quad, oq);
							other_quad.take();
							continue 'next_quad;
						}
					}
				}

				// eprintln!("could not match {} with anything", quad);
				return false;
			}

			true
		} else {
			false
		}
""","""		if a.len() != b.len() {
			return false;
		}

		let mut remaining: Vec<Quad<&'b R>> = b.0.clone();
		for quad in a.0.iter() {
			let found = remaining
				.iter()
				.position(|oq| self.quad_matches_with(interpretation, *quad, *oq));
			match found {
				Some(i) => {
					remaining.remove(i);
				}
				None => return false,
			}
		}

		true
"""))
r("R07","C20 C21",(ISO,"""					if !self.backward.contains_key(b_candidate) {
						// eprintln!("analyzing candidate {} for {}", b_candidate, a_blank_id);

						let mut new_sigma = self.clone();
						new_sigma.insert(a_blank_id, b_candidate);
						if new_sigma.signature_matches_with(
							interpretation,
							a.get(a_blank_id).unwrap(),
							b.get(b_candidate).unwrap(),
						) {
							// eprintln!("this is a valid candidate. continuing.");
							if let Some(final_sigma) = new_sigma.find_from_candidates(
								interpretation,
								candidates.clone(),
								a,
								b,
							) {
								return Some(final_sigma);
							}
							// eprintln!("it didn't work out in the end. next candidate for {}.", a_blank_id);
						}
					}
""","""					if self.backward.contains_key(b_candidate) {
						continue;
					}

					let mut new_sigma = self.clone();
					new_sigma.insert(a_blank_id, b_candidate);
					let valid = new_sigma.signature_matches_with(
						interpretation,
						a.get(a_blank_id).unwrap(),
						b.get(b_candidate).unwrap(),
					);
					if !valid {
						continue;
					}

					let found =
						new_sigma.find_from_candidates(interpretation, candidates.clone(), a, b);
					if found.is_some() {
						return found;
					}
"""))
r("R08","C20 C21",(ISO,"""	let mut r = 0;

	if interpretation.is_anonymous(s) {
		r += 1
	}

	if interpretation.is_anonymous(p) {
		r += 1
	}

	if interpretation.is_anonymous(o) {
		r += 1
	}

	if let Some(g) = g {
		if interpretation.is_anonymous(g) {
			r += 1
		}
	}

	r
""","""	let named = usize::from(interpretation.is_anonymous(s))
		+ usize::from(interpretation.is_anonymous(p))
		+ usize::from(interpretation.is_anonymous(o));
	match g {
		Some(g) if interpretation.is_anonymous(g) => named + 1,
		_ => named,
	}
"""))
r("R09","C20 C21",(ISO,"""		match result.entry(sig.len()) {
			Entry::Vacant(entry) => {
				let mut map = BTreeMap::new();
				map.insert(blank_id, sig);
				entry.insert(map);
			}
			Entry::Occupied(mut entry) => {
				entry.get_mut().insert(blank_id, sig);
			}
		}
""","""		result
			.entry(sig.len())
			.or_insert_with(BTreeMap::new)
			.insert(blank_id, sig);
"""),(ISO,"btree_map::Entry, ",""))
r("R10","C18",("src/display.rs","""		for c in self.chars() {
			match c {
				'"' => write!(f, "\\\\\\""),
				'\\\\' => write!(f, "\\\\\\\\"),
				'\\n' => write!(f, "\\\\n"),
				'\\r' => write!(f, "\\\\r"),
				c => f.write_char(c),
			}?
		}
""","""		for c in self.chars() {
			let escaped = match c {
				'\\r' => "\\\\r",
				'\\n' => "\\\\n",
				'\\\\' => "\\\\\\\\",
				'"' => "\\\\\\"",
				_ => {
					f.write_char(c)?;
					continue;
				}
			};
			f.write_str(escaped)?;
		}
"""))
r("R11","C15 C16",("src/blankid.rs","""	match chars.next() {
		Some('_') => match chars.next() {
			Some(':') => match chars.next() {
				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
					let mut last = c;
					for c in chars {
						if !is_pn_char(c) && c != '.' {
							return false;
						}

						last = c
					}

					last != '.'
				}
				_ => false,
			},
			_ => false,
		},
		_ => false,
	}
""","""	if chars.next() != Some('_') || chars.next() != Some(':') {
		return false;
	}

	let mut last = match chars.next() {
		Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => c,
		_ => return false,
	};

	for c in chars {
		if c != '.' && !is_pn_char(c) {
			return false;
		}
		last = c;
	}

	last != '.'
"""))
r("R12","C14",(MAP,"""			same_as_subject: if triple.subject() == triple.predicate() {
				Some(self.same_as_subject.get(triple))
			} else {
				None
			},
""","""			same_as_subject: (triple.subject() == triple.predicate())
				.then(|| self.same_as_subject.get(triple)),
"""))
r("R13","C10",("src/dataset/mod.rs","""		self.quad_pattern_matching(quad.into()).next().is_some()
	}

	/// Checks if the dataset contains the given subject.""","""		let mut matching = self.quad_pattern_matching(quad.into());
		matching.next().is_some()
	}

	/// Checks if the dataset contains the given subject."""))
r("R14","C01",(BG,"""			e.insert(Triple(s_i, p_i, o_i));
""","""			let stored = Triple(s_i, p_i, o_i);
			e.insert(stored);
"""),(BG,"""		if self.contains(triple.as_ref()) {
			false
		} else {
			let s_i""","""		if self.index_of_triple(triple.as_ref()).is_some() {
			false
		} else {
			let s_i"""))
r("R15","C05",(DS,"""			match self.predicate.next(i, quad) {
				Ok(()) => match self.object.next(i, quad) {
					Ok(()) => match self.graph.next(i, quad) {
						Ok(()) => {
							self.i = i + 1;
							return Some(quad_with_resources(self.resources, quad));
						}
						Err(j) => self.i = j?,
					},
					Err(j) => self.i = j?,
				},
				Err(j) => self.i = j?,
			}
		}

		None
	}
}

/// Iterator over the quads of a [`BTreeGraph`] matching some given pattern.
pub struct MultiPatternMatching""","""			let checked = self
				.predicate
				.next(i, quad)
				.and_then(|()| self.object.next(i, quad))
				.and_then(|()| self.graph.next(i, quad));
			match checked {
				Ok(()) => {
					self.i = i + 1;
					return Some(quad_with_resources(self.resources, quad));
				}
				Err(j) => self.i = j?,
			}
		}

		None
	}
}

/// Iterator over the quads of a [`BTreeGraph`] matching some given pattern.
pub struct MultiPatternMatching"""))
r("R16","C22 C20",("src/interpretation/mod.rs","self.terms_of(resource).next().is_none()","""self.iris_of(resource).next().is_none() && self.literals_of(resource).next().is_none()"""))
r("R17","C22",("src/interpretation/mod.rs","""		self.iris
			.next()
			.map(CowTerm::Iri)
			.or_else(|| self.literals.next().map(CowTerm::Literal))
""","""		match self.iris.next() {
			Some(iri) => Some(CowTerm::Iri(iri)),
			None => self.literals.next().map(CowTerm::Literal),
		}
"""))
r("R18","C08",(DS,"""		let mut graph = BTreeGraph::new();
		for i in indexes {
			let quad = quad_with_resources(&self.resources, self.quads[i]).cloned();
			self.remove_by_index(i, true);
			graph.insert(quad.into_triple().0); // TODO: could be optimized
		}

		Some(graph)
""","""		let mut graph = BTreeGraph::new();
		let mut n = 0;
		while n < indexes.len() {
			let i = indexes[n];
			let Quad(s, p, o, _) = quad_with_resources(&self.resources, self.quads[i]).cloned();
			self.remove_by_index(i, true);
			graph.insert(crate::Triple(s, p, o));
			n += 1;
		}

		Some(graph)
"""))
r("R19","C04",(DS,"""		self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)
""","""		self.iter().eq(other.iter())
"""))
r("R20","C17 C19",("src/literal/type/ref.rs","""			(Self::Any(_), LiteralType::LangString(_)) => Some(Ordering::Less),
			(Self::LangString(_), LiteralType::Any(_)) => Some(Ordering::Greater),
			(Self::LangString(a), LiteralType::LangString(b)) => (*a).partial_cmp(b),
""","""			(Self::LangString(a), LiteralType::LangString(b)) => a.partial_cmp(&b.as_lang_tag()),
			(Self::LangString(_), LiteralType::Any(_)) => Some(Ordering::Greater),
			(Self::Any(_), LiteralType::LangString(_)) => Some(Ordering::Less),
"""))
r("R21","C06",(DS,"""				for s in multi_s {
					if let Some(subject) = dataset.get_resource(s) {
						indexes.extend(""","""				for resource in multi_s {
					let found = dataset.get_resource(resource);
					if let Some(subject) = found {
						indexes.extend("""))
def one(t):
    i,checks,edits=t; d=f"/tmp/rf-{i}"; out=[]
    shutil.rmtree(d,ignore_errors=True); subprocess.run(["cp","-a","/repo",d],check=True)
    try:
        for f,a,b in edits:
            s=open(f"{d}/{f}").read()
            if a not in s: return f"{i} ANCHOR MISSING in {f}"
            open(f"{d}/{f}","w").write(s.replace(a,b,1))
        p=subprocess.run(["cargo","test","--offline","--features","contextual,serde","--target-dir",f"/tmp/rf-target-{i}"],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if p.returncode: return f"{i} DOES NOT BUILD/TEST: "+"\n".join([l for l in p.stdout.splitlines() if l.startswith("error") or "-->" in l][:6])
        for c in checks:
            e=dict(os.environ,VERIF_REPO=d,VERIF_EVIDENCE=f"/tmp/rfev-{i}")
            q=subprocess.run(["python3",V+"/check.py",c,"quick"],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            ls=[l for l in q.stdout.splitlines() if l.startswith(("VIOLATION","failed obligation")) or "undecided" in l]
            out.append(f"{c} rc {q.returncode} "+" ; ".join(l[:220] for l in ls))
        return f"{i} "+"\n    ".join(out)
    finally:
        for x in (d,f"/tmp/rf-target-{i}",f"/tmp/rfev-{i}"): shutil.rmtree(x,ignore_errors=True)
if __name__=="__main__":
    want=sys.argv[1:]
    with ThreadPoolExecutor(int(os.environ.get("J","3"))) as ex:
        for o in ex.map(one,[x for x in R if not want or x[0] in want]): print(o,flush=True)
