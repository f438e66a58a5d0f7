"""Per-property configuration of check.py and source of MANIFEST.json (tools/mkmanifest.py)."""
K_ASSUME = ["parametricity: code generic over the resource and variable types is proved at u8 (256 values, more than any harness can distinguish)"]
P = {}
def p(pid, level, technique, note, **kw):
    P[pid] = dict(level=level, technique=technique, note=note, **kw)

B = "bounded stand-in: the real crate executed against an independent oracle over stated scopes (never counted as proved)"
PAT_ASSUME = K_ASSUME + ["`==` on variables is an equivalence relation and agrees on values and references", "replace_with puts in place what the function makes of the old value"]
TECH_VK = "Verus contracts on extracted code; Kani full-domain contracts"
p("C11", "proof", TECH_VK,
  "Postconditions on every canonicalisation function: the constraints of the result are those of what was given, satisfied by the same statements (Verus, all types; Kani: end to end with all inputs symbolic).",
  verus=[("patterns", r"::(from|from_\w+|triple_meaning|quad_meaning|triple_as_quad_meaning|quad_renaming|triple_renaming|partial_meaning)$")],
  kani=["c11_triple_pattern","c11_triple_renaming","c11_quad_pattern","c11_quad_renaming","c11_partial","c11_full"],
  kani_functions=["pattern::{triple,quad}::canonical: from_triple, from_quad, from_option_*, from_pattern, from_triple_pattern, From impls"], assumptions=PAT_ASSUME)
p("C12", "proof", TECH_VK,
  "Postconditions on accessors and transformations of canonical patterns: each is a function of the four constraints of the pattern, which determine it by lemma (Verus, all types; Kani with all inputs symbolic).",
  verus=[("patterns", r"::(subject|predicate|object|graph|into_\w+|as_ref|map|map2|with_any_graph|as_given|id|into_id|cloned|filter_triple|is_id_or|\w+_determined)$")],
  kani=["c12_triple","c12_role","c12_quad_read","c12_quad_map"],
  kani_functions=["pattern::{triple,quad}::canonical: accessors, into_parts, into_triple, with_any_graph, as_ref, map, map2, cloned, id"], assumptions=PAT_ASSUME)
p("C13", "proof", TECH_VK,
  "Postconditions on the setters of canonical triple patterns, as functions of the constraints before; substitution is a lemma over them (Verus, all types; Kani with all inputs symbolic).",
  verus=[("patterns", r"::(set_\w+|with_(subject|predicate|object)|substitution_\w)$")],
  kani=["c13_subject","c13_predicate","c13_object"],
  kani_functions=["pattern::triple::canonical: set_subject, with_subject, set_predicate, with_predicate, set_object, with_object"], assumptions=PAT_ASSUME)


# ---- Verus
V_ASSUME = ["the contracts of dependencies listed as assumed (slab, raw-btree, BTreeSet, core iterators and comparisons): the driver tests them by running the real ones",
            "resources obey a lawful total order whose Equal is equality, and clone to equal values"]
CORE = r"^(\w*cmp|\w+_with_resources|index_of_\w+|get_resource|insert|remove|remove_by_index|new|default|is_empty|subject|predicate|object|graph|as_ref|cloned|clone|clone_btree)$"
def v(pid, units, note, bounded, assumptions=(), **kw):
    p(pid, "proof", "Verus contracts on extracted code", note, verus=units, assumptions=V_ASSUME + list(assumptions), bounded=bounded, **kw)
def core(extra):
    return CORE[:-2] + "|" + extra + ")$"
SETS = core(r"len|contains|contains_triple|contains_quad|extend|from_iter|iter|next|into_iter|triples|quads")
v("C01", [("btree_graph", SETS), ("indexed_graph", SETS)],
  "Data structure invariant and set-level postconditions of every operation of both graph stores, for all histories.", [])
v("C02", [("btree_dataset", SETS), ("indexed_dataset", SETS)],
  "Data structure invariant and set-level postconditions of every operation of both dataset stores, for all histories.", [])
ENUM = core(r"contains_resource|resources|subjects|predicates|objects|named_graphs|\w+_count|next|graph_resources|graph_subjects|graph_predicates|graph_objects")
v("C03", [(u, ENUM) for u in ("btree_graph", "indexed_graph", "btree_dataset", "indexed_dataset")] + [("queries", r"::\w+_count$")],
  "Enumerations of resources and of roles list exactly the terms used there, once each, in every reachable state of the four stores.",
  [])
ORDER = core(r"iter|next|into_iter|eq|partial_cmp|cmp|hash|extend|from_iter|len|triples|quads")
v("C04", [(u, ORDER) for u in ("btree_graph", "indexed_graph", "btree_dataset", "indexed_dataset")],
  "Iteration is the strictly increasing listing of the set; ==, cmp and hash are functions of that listing; a clone satisfies the invariant and has the same listing.", [])

PARTS = r"into_subject|into_predicate|into_object|into_graph"
v("C05", [("graph_patterns", r"::(?!new_multi)"), ("dataset_patterns", r"^(?!.*(new_multi|new_owned|MultiPattern|multi_|into_parts)).*::"), ("indexed_graph", CORE), ("indexed_dataset", CORE)],
  "Pattern matching in both indexed stores: with the contract of next, the iterator yields each stored statement that satisfies the pattern, once, and nothing else, in every reachable state.", [])
v("C06", [("dataset_patterns", r"new_multi|MultiPattern|multi_|::into_parts|Constraints<I>::next|_cmp$"), ("indexed_dataset", CORE)],
  "Multi-pattern matching yields each stored quad whose every component is among the alternatives listed for it, once, and nothing else.", [])
v("C07", [("dataset_extract", r"."), ("dataset_patterns", r"new_owned|Constraints<I>::next|::(" + PARTS + r")$|_cmp$"), ("indexed_dataset", CORE)],
  "Extraction: each next takes one matching quad out of the dataset and returns it, until none matches; the rest stays, at every point where the iterator can be dropped.", [])
v("C08", [("dataset_remove_graph", r"."), ("indexed_dataset", CORE), ("btree_graph", CORE)],
  "remove_graph returns exactly the triples of the graph asked for and leaves exactly the quads of the others; None exactly when a named graph has no quads.", [])
v("C09", [("graph_indexing", r"."), ("dataset_indexing", r"."), ("btree_graph", CORE), ("btree_dataset", CORE)],
  "Indexing a store: the indexed store satisfies its whole invariant (so every contract of its operations applies) and holds the same statements.", [])

QUERY = core(r"len|contains|contains_triple|contains_quad|iter|next|triples|quads|resources|\w+_count|subjects|predicates|objects|named_graphs|graph_\w+")
v("C10", [("queries", r"."), ("indexed_graph", QUERY), ("indexed_dataset", QUERY), ("graph_patterns", r"::(?!new_multi)"), ("dataset_patterns", r"^(?!.*(new_multi|new_owned|MultiPattern|multi_|into_parts)).*::")],
  "The traits of stores with contracts on their required methods; every default method and every blanket implementation (graphs used as datasets, error-capable variants) is discharged against them, for any implementation; the overrides of the indexed stores are discharged in their units.", [],
  ["the associated iterator types of a blanket implementation are as its text says (they are written out in the contract)", "an iterator that is counted has at most usize::MAX items", "Option::transpose swaps the two layers",
   "the indexed stores' pattern matching satisfies the required contract: their own units prove that next yields each matching statement once, in the order of the store"])

TEXT_ASSUME = ["vstd's contracts of str, String, char and Chars, and that Index::index on str is SliceIndex::index",
               "core::fmt writes a string as itself and an unsigned integer as its decimal numeral; new_unchecked (a transmute) keeps the text"]
p("C15", "proof", "Verus contracts on extracted code",
  "Parsing accepts exactly the documented grammar: postconditions against the grammar written as a predicate on Unicode sequences, for all strings.",
  verus=[("blankid", r"blankid.rs: (?!.*::from_u\d)")], assumptions=TEXT_ASSUME + ["transmute between str and its transparent wrapper keeps the text"], bounded=[])
p("C16", "proof", "Verus contracts on extracted code",
  "Every generated identifier is valid, is the prefix followed by the numeral of the counter, and the counter increases by one without wrapping; injectivity of numerals is a lemma.",
  verus=[("blankid", r"blankid.rs: BlankIdBuf::from_u\d|generator/blank.rs: ")], assumptions=TEXT_ASSUME + ["Option::expect returns only the value"], bounded=[], profile="wrap")

p("C17", "proof", "Verus contracts on extracted code; Kani full-domain contracts",
  "Every comparison and hash of identifiers, literal types, literals and terms, owned, borrowed or mixed, is the comparison or hash of the values; these agree with each other by lemma. Triples and quads, of any component types, owned, borrowed or mixed, compare and hash lexicographically, a missing graph first, and are lawful when their components are (Verus; also Kani on the compiled code).",
  verus=[("comparisons", r"."), ("statements", r"::(eq|partial_cmp|cmp|hash)\b")], kani=["c17_triple","c17_quad","c17_hash"], kani_functions=["triple.rs, quad.rs: PartialEq, PartialOrd, Ord, Hash"],
  assumptions=TEXT_ASSUME + ["equality, order and hash of str, Iri and LangTag depend on the text only, in both forms, and agree with each other", "#[derive] of a comparison or Hash goes field by field in order, variants by position"], bounded=[])
p("C19", "proof", "Verus contracts on extracted code; Kani full-domain contracts",
  "Every conversion between owned, borrowed and copy-on-write forms keeps the value, and accessors of every form report its components (Verus); constructors, accessors, maps and conversions of triples and quads likewise, for all component types (Verus; also Kani on the compiled code).",
  verus=[("terms", r"."), ("statements", r"^(?!.*::(eq|partial_cmp|cmp|hash)\b)")], kani=["c19_triple","c19_quad"], kani_functions=["triple.rs, quad.rs: constructors, accessors, map*, into_*, as_ref, cloned, copied"],
  assumptions=TEXT_ASSUME + ["to_owned, into_owned, borrow and deref of str, Iri, LangTag and their owned forms keep the text", "Option::copied copies, and a closure given to map answers as its contract says whatever it was called with before"], bounded=[])

p("C22", "proof", "Verus contracts on extracted code",
  "Contracts of the interpretation traits, with their default methods, as relations between a term and its resource; the transparent and generator-backed interpretations satisfy the transparent relations, and a wrapped interpretation has the relations of the one it wraps.",
  verus=[("interpretation", r"."), ("terms", r"::(to_owned|into_owned|from|iri|literal|as_iri|as_literal|as_blank_id|into_cow|as_cow)$"), ("blankid", r"::(next_local_term|next_blank_id)$")],
  assumptions=TEXT_ASSUME + ["the associated iterator types of interpretations are read as one opaque type yielding a sequence; a RefCell used by one thread with no borrow outstanding is a plain cell (`&self` read as `&mut self` where its content matters)"],
  bounded=[])

p("C18", "proof", "Verus contracts on extracted code",
  "Every rdf_fmt writes the N-Triples form of the value, given as a function of the value alone (hence one form for owned and borrowed); lemmas: that form holds no line break and determines the value and what follows it; each store writes one terminated line per statement, in the order it lists them.",
  verus=["display"] + [("display_" + u, r"rdf_fmt|rdf_display|RdfDisplay") for u in ("btree_graph", "indexed_graph", "btree_dataset", "indexed_dataset")] + [("terms", r"::is_xsd_string$|::is_iri$")],
  assumptions=TEXT_ASSUME + ["no IRI reference holds a character N-Triples excludes (iref validates them), so the escape of such characters is never reached", "the width, precision and alternate options of a formatter are not set", "iref and langtag display their text"],
  bounded=[])

p("C14", "proof", "Verus contracts on extracted code",
  "insert adds exactly the association and reports whether it is new, union_with keeps those of both maps, and the iterator returned by get yields each value as many times as there are patterns it was inserted with that the triple satisfies (lemma over the 15 patterns a triple can satisfy), for all maps and triples.",
  verus=["pattern_map"], assumptions=["HashMap and HashSet behave as a map and a set up to Eq, and Eq and Hash of resources and values are lawful", "educe's Default gives every field its default"], bounded=[])

ISO_ASSUME = ["resources obey a lawful total order whose Equal is equality; `==` of `&R` is that of the values",
  "for the `_with` forms with a caller's interpretation: one IRI or literal names one resource (proved for find_bijection and are_isomorphic)",
  "Vec, BTreeMap, BTreeSet, iterator adaptors and sorting behave as sequence, map, set, their definitions and a permutation; educe's Clone clones every field",
  "a dataset lists each of its quads once (discharged for the stores of the crate in their units); the number of occurrences of blank nodes fits usize",
  "debug output (eprintln!) has no effect"]
p("C20", "proof", "Verus contracts on extracted code",
  "Postcondition of find_bijection_with, for all datasets: Some(β) only if β is a one-to-one correspondence between exactly the blank nodes of both, the same in both directions, under which the quads of the first are those of the second; carried up from the contracts of matching, signatures, and the backtracking search by induction on the candidates.",
  verus=["isomorphism", ("interpretation", r"::is_anonymous$|none.rs")], assumptions=ISO_ASSUME, bounded=[])
p("C21", "proof", "Verus contracts on extracted code",
  "Postcondition of find_bijection_with, for all datasets: None only if no isomorphism exists (every isomorphism maps a blank node to a candidate, and the search leaves none out); lemmas: being isomorphic is reflexive and symmetric.",
  verus=["isomorphism", ("interpretation", r"::is_anonymous$|none.rs")], assumptions=ISO_ASSUME, bounded=[])

p("C23", "proof", "Verus contracts on extracted code",
  "Contracts over serde's data model, with serde's traits under contract: each store writes the sequence of its statements and reads back the set of the statements read; the blank node identifier visitor accepts exactly the valid labels. Lemmas: what the document of a value reads as is equal to it and reading it succeeds, for literals, terms (the untagged forms cannot be confused), triples, quads and components of patterns of any component types, and the four stores.",
  verus=["serde_terms"] + [("serde_" + u, r"^(serialize|deserialize|visit_\w+)$") for u in ("btree_graph", "indexed_graph", "btree_dataset", "indexed_dataset")] + [("blankid", r"::(check|new|new_unchecked|is_pn_char\w*)$")],
  driver="sdriver",
  assumptions=["serde's derives write and read what serde documents for the item's shape and its serde attributes (which are read from the source on every run)",
               "the format gives back the documents written, an absent value told apart from a present one, and buffers them for untagged enums without loss",
               "iref and langtag write their text and accept exactly the texts of IRIs and language tags; an IRI does not start with an underscore",
               "resources read back equal (round), up to the equality of their order"] + V_ASSUME,
  bounded=[])

NOT_APPLICABLE = {}
