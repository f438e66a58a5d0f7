#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
BG="src/dataset/graph/impl/btree_graph.rs"; IG="src/dataset/graph/impl/indexed_btree_graph.rs"
BD="src/dataset/impl/btree_dataset.rs"; ID="src/dataset/impl/indexed_btree_dataset.rs"
TP="src/pattern/triple/canonical.rs"; QP="src/pattern/quad/canonical.rs"; ISO="src/dataset/isomorphism.rs"
p("C01","Graph stores behave as mathematical sets of triples",
 "After any sequence of insertions and removals, a graph store (plain or indexed) contains exactly the triples inserted and not removed since, whatever resources they repeat or share. An insertion returns true exactly when the triple was absent, a removal returns true exactly when it was present, and neither affects any other triple. Membership tests, length, emptiness, borrowed iteration and consuming iteration all report that one set, each triple once.",
 ["inputs","histories"],"for every resource type with a lawful total order, every history of insert/remove/extend/collect calls, and every triple queried",
 "The unit tests insert and remove a few hundred triples of random 32-bit resources, so resources are practically never shared or repeated, slots are rarely recycled, and return values are ignored.",
 [BG,IG],[("insert / remove / contains / index_of_triple","%s: impl BTreeGraph<R: Ord>"%BG),("insert / remove / contains","%s: impl IndexedBTreeGraph<R: Ord>"%IG),("Triples, IntoTriples iterators","both files")],
 [("slab of interned resources with reference counts or position sets","one live entry per distinct resource in use",BG),("slab of triples and the two order indexes","index trees list exactly the occupied slots, sorted by value",BG)],
 ["return values of insert/remove/contains/len/is_empty","sequence yielded by iter/into_iter"])
p("C02","Dataset stores behave as mathematical sets of quads",
 "After any sequence of insertions and removals, a dataset store (plain or indexed) contains exactly the quads inserted and not removed since, where two quads that differ only in their graph (default or named) are different quads. An insertion returns true exactly when the quad was absent, a removal returns true exactly when it was present, and neither affects any other quad. Membership tests, length, emptiness, borrowed iteration and consuming iteration all report that one set, each quad once.",
 ["inputs","histories"],"for every resource type with a lawful total order, every history of insert/remove/extend/collect calls, and every quad queried",
 "The unit tests use random 32-bit resources without sharing or repetition and never check return values, recycled slots, or the same triple in several graphs.",
 [BD,ID],[("insert / remove / contains","%s: impl BTreeDataset<R: Ord>"%BD),("insert / remove / remove_by_index","%s: impl IndexedBTreeDataset<R: Ord>"%ID)],
 [("slabs of resources and quads, order indexes","as for graphs, plus the set of default-graph slots",ID)],["return values","iter/into_iter"])
p("C03","Term enumerations list exactly the terms in use, once each",
 "At every point of any history, the resources a store enumerates are exactly the terms occurring in some position of some stored triple or quad, each exactly once, and the subjects, predicates, objects and named graphs an indexed store enumerates are exactly the terms occurring in that position, each exactly once. The corresponding counts equal the number of enumerated terms, and a resource membership test agrees with the enumeration.",
 ["inputs","histories"],"for all four stores, every history of insertions, removals, extractions and conversions, every term",
 "No existing test looks at any enumeration or count; the defects this exposes need a term that leaves one position while staying in another.",
 [BG,IG,BD,ID],[("reference counting of interned resources","insert/remove in the plain stores"),("as_subject/as_predicate/as_object/as_graph sets and subjects/predicates/objects/named_graphs sets","insert/remove/remove_by_index in the indexed stores")],
 [("position sets of each resource","slots where the resource occurs in that position",ID)],["resources/subjects/predicates/objects/named_graphs, *_count, contains_resource"])
p("C04","Iteration is sorted; equality, order and hash depend only on content",
 "Iterating a store yields its triples or quads in strictly increasing order, whatever the history that produced the store. Two stores of one kind are equal exactly when they hold the same set, compare as their sorted sequences do lexicographically, and hash alike when equal. A clone is equal to its original and independent of it.",
 ["inputs","histories"],"for all four stores and every pair of histories",
 "Tests check the order after one history with distinct resources; equality, ordering, hashing and cloning of stores are not tested at all.",
 [BG,IG,BD,ID,"src/utils.rs"],[("order index trees keyed by resource values","triple_index_cmp / quad_index_cmp and callers"),("clone_btree, which copies the order indexes","src/utils.rs"),("PartialEq/PartialOrd/Ord/Hash impls","all four store files")],None,["iter order, ==, cmp, hash, clone"])
p("C05","Pattern matching returns exactly the matching statements",
 "Matching a pattern against an indexed graph or dataset yields every stored statement that satisfies all fixed components and all repeated-variable equalities, yields nothing else, and yields none of them twice. A repeated graph variable never matches the default graph, a fixed graph (default or named) matches only that graph, and an unconstrained graph matches all. This holds whatever insertions and removals came before.",
 ["inputs","histories"],"for every pattern shape, every content, and every history including ones that leave and recycle vacant slots",
 "No existing test performs pattern matching on a store; vacant-slot, skipping and multi-constraint interactions depend on the history.",
 [IG,ID],[("PatternMatching::next","both files"),("SubjectConstraints/PredicateConstraints/ObjectConstraints/GraphConstraints new and next","both files")],None,["multiset yielded by pattern_matching / triple_pattern_matching / quad_pattern_matching"])
p("C06","Multi-pattern matching equals the union over the listed alternatives",
 "Matching a pattern whose fixed components each list several alternatives yields exactly the stored quads whose components are among the listed alternatives and that satisfy the repeated-variable equalities, each once. Unknown or duplicated alternatives change nothing, and an empty list matches nothing.",
 ["inputs","histories"],"for every list of alternatives per position, every pattern shape, content and history",
 "The multi-pattern API has no test.",[ID],[("multi_pattern_matching, *Constraints::new_multi, MultiPatternMatching::next",ID)],None,["multiset yielded by multi_pattern_matching"])
p("C07","Extraction yields and removes exactly the matching quads",
 "Running an extraction to its end yields exactly the quads that matched the pattern when it started, each once, and afterwards the dataset holds exactly the other quads, with every query and enumeration consistent with that. An extraction abandoned early has removed exactly the quads it yielded.",
 ["inputs","histories"],"for every pattern, content, history, and number of steps taken before the extraction is dropped",
 "The extraction API has no test.",[ID],[("extract_pattern_matching, *Constraints::new_owned, ExtractPatternMatching::next, remove_by_index",ID)],None,["yielded quads and later observations of the dataset"])
p("C08","Removing a graph takes exactly that graph",
 "Removing a named graph that has no quad returns nothing and changes nothing; otherwise removing a named graph, or the default graph, returns a graph holding exactly the triples it had and leaves exactly the quads of the other graphs. All queries and enumerations of the dataset reflect this afterwards.",
 ["inputs","histories"],"for every content and history, every graph name including ones that occur only in other positions, and the default graph",
 "The graph-removal API has no test.",[ID,BG],[("remove_graph, remove_by_index",ID)],None,["return value of remove_graph; later observations"])
p("C09","Indexing a store preserves its content",
 "Converting a plain graph or dataset, with any history, into its indexed form preserves the set of statements, and the result enumerates terms, matches patterns, and accepts further insertions and removals exactly like an indexed store built directly from that set.",
 ["inputs","histories"],"for every content and history before and after the conversion",
 "The conversion has no test.",[IG,ID,BG,BD],[("from_non_indexed / into_indexed / From","%s, %s"%(IG,ID))],None,["all observations of the converted store"])
p("C10","Generic store queries agree with the stored statements",
 "The generic queries offered on stores through the shared interfaces (traversal, counting, membership of a statement, of a subject, predicate, object or named graph, objects of a subject and predicate, predicates with their objects, and the error-capable variants of each) return exactly what the stored set implies. A graph used as a dataset behaves as one whose quads are its triples in the default graph: it has no named graph, and only patterns admitting the default graph match.",
 ["inputs","histories"],"for every store reachable through the public interfaces and every query argument",
 "No test goes through the generic query interfaces except plain traversal inside the isomorphism tests.",
 ["src/dataset/mod.rs","src/dataset/graph/mod.rs","src/dataset/fallible.rs","src/dataset/graph/fallible.rs","src/utils.rs"],[("default methods of PatternMatchingGraph / PatternMatchingDataset","src/dataset/graph/mod.rs, src/dataset/mod.rs"),("blanket impls turning graphs into datasets","src/dataset/mod.rs"),("adapters InfallibleIterator, TripleToQuadIterator, OptionIterator","src/utils.rs")],None,["results of the trait methods"])
p("C11","Canonicalising a pattern preserves its meaning",
 "Turning a triple or quad pattern with variables, a partially specified triple or quad, or a full triple or quad into a canonical pattern yields one satisfied by exactly the same statements: fixed components must be equal, components sharing a variable must be equal to each other, and other components are unconstrained. A triple, full or partial, used as a quad pattern leaves the graph unconstrained, and a triple pattern with variables used as a quad pattern addresses the default graph. Renaming variables does not change the canonical pattern.",
 ["inputs"],"for every assignment of resources and (possibly repeated) variables to the positions, and every statement",
 "Pattern conversion has no test; there are hundreds of variable-coincidence cases.",[TP,QP],[("from_triple/from_quad/from_option_*/from_pattern and the From impls","%s, %s"%(TP,QP))],None,["components of the canonical pattern"])
p("C12","Canonical patterns decompose and transform without changing meaning",
 "Reading the components of a canonical pattern by reference, by value or all at once gives the same constraints, which together determine the pattern. Widening a triple pattern to any graph, splitting a quad pattern into a triple pattern and a graph constraint, borrowing, and mapping resources (to one or two results) keep the shape and map each fixed resource in its own position. Components of patterns with variables are borrowed and mapped likewise, variables staying as they are, and filtering a triple by an object constraint agrees with the meaning of the constraint.",
 ["inputs"],"for every canonical pattern, component and mapping function",
 "There is no test of the pattern types; each operation has dozens of shape-specific arms.",[TP,QP,"src/pattern/resource_or_variable.rs"],[("accessors, into_parts, into_triple, with_any_graph, as_ref, map, map2, cloned, id, filter_triple","%s, %s"%(TP,QP)),("ResourceOrVar::{map, as_ref, is_id_or, from}","src/pattern/resource_or_variable.rs")],None,["results of these methods"])
p("C13","Fixing a component of a triple pattern is substitution",
 "Fixing the subject, predicate or object of a canonical triple pattern to a resource yields the pattern satisfied by exactly the statements that have this resource there and otherwise satisfied the old pattern, with equality constraints to the now fixed component carried over; a component that was already fixed is replaced. The returned value is the constraint the component had before.",
 ["inputs"],"for every canonical triple pattern, component and resource",
 "There is no test of the setters.",[TP],[("set_subject/with_subject, set_predicate/with_predicate, set_object/with_object",TP)],None,["pattern after the call and returned constraint"])
p("C14","The pattern map returns exactly the values of matching patterns",
 "Looking up a triple in a pattern map yields the values associated with every inserted pattern that the triple satisfies, and no other value, each at most once per pattern. Insertion reports whether the association was new, and merging two maps keeps every association of both.",
 ["inputs","histories"],"for every set of (pattern, value) associations, every order of insertion and merging, every triple",
 "The pattern map has no test.",["src/pattern/triple/map.rs"],[("insert / get / union_with and the value iterators","src/pattern/triple/map.rs")],None,["values yielded by get; return of insert"])
p("C15","Blank node identifiers are accepted exactly per the documented grammar",
 "Parsing a string as a blank node identifier, borrowed or owned, from a full label or from a suffix, succeeds exactly when the string matches the documented grammar, for all Unicode strings. On success the identifier's text is the input, its suffix is the text after the two-character mark, and on failure the input is handed back.",
 ["inputs"],"for every Unicode string",
 "No test parses blank node identifiers beyond a few literal labels.",["src/blankid.rs"],[("check, is_pn_char_base, is_pn_char_u, is_pn_char","src/blankid.rs"),("BlankId::new, BlankIdBuf::new, from_suffix, from_str, suffix","src/blankid.rs")],None,["result of the constructors, as_str, suffix"])
p("C16","Generated blank node identifiers are valid and never repeat",
 "Every identifier made from a number, or by a numbered generator whose prefix is legal, is a valid blank node identifier. One generator never returns the same identifier twice: it counts up from its offset and panics rather than wrapping around, and distinct numbers give distinct identifiers.",
 ["inputs","histories"],"for every number, legal prefix, offset and number of calls",
 "No test exercises the generators or the numeric constructors.",["src/term/generator/blank.rs","src/blankid.rs","src/term/generator/mod.rs","src/term/generator/interpretation.rs"],[("Blank::next_blank_id","src/term/generator/blank.rs"),("BlankIdBuf::from_u8/u16/u32/u64","src/blankid.rs")],None,["identifiers returned"])
p("C17","Comparisons are lexicographic and consistent across representations",
 "Triples and quads compare component by component in order, with the default graph before every named graph, and equality, partial order, total order and hash agree with each other. Terms and literals compare the same way whether owned or borrowed on either side, and equal owned and borrowed literals hash alike.",
 ["inputs"],"for every pair of values in every supported combination of representations",
 "Tests only sort triples and quads of integers; borrowed-versus-owned comparisons are not tested.",["src/triple.rs","src/quad.rs","src/literal/ref.rs","src/literal/type/ref.rs","src/term/ref.rs","src/term/local/ref.rs","src/blankid.rs"],[("PartialEq/PartialOrd/Ord impls","files listed")],None,["results of ==, partial_cmp, cmp, hash"])
p("C18","The RDF textual form of terms is unambiguous and reads back",
 "The RDF display of a term, triple or quad is one line from which the same value can be read back under the N-Triples/N-Quads rules: strings are quoted with quotes, backslashes and line breaks escaped, IRIs are in angle brackets, blank nodes are written as their label, and a literal carries its language tag or its datatype, the datatype being left out exactly for plain strings. Owned and borrowed values have the same display, formatting options (width, fill, alignment, precision, alternate) do not alter it other than by padding around or truncating a blank node label displayed on its own, and a store displays one terminated line per statement, in order.",
 ["inputs"],"for every term, triple, quad and store content",
 "Display has no test.",["src/display.rs","src/literal/mod.rs","src/literal/ref.rs","src/literal/type/mod.rs","src/literal/type/ref.rs","src/term/mod.rs","src/term/local/mod.rs","src/triple.rs","src/quad.rs"],[("RdfDisplay impls and Display of triples/quads/literals","files listed")],None,["formatted text"])
p("C19","Conversions between owned, borrowed and copy-on-write forms are lossless",
 "Converting an identifier, literal, literal type, term, triple or quad between its owned, borrowed and copy-on-write forms and back yields an equal value of the same kind, and the component and kind accessors of every form report the same components. Mapping or moving components of triples and quads affects only the component addressed.",
 ["inputs"],"for every value and every conversion path",
 "Conversions are only exercised incidentally by building test datasets.",["src/id/mod.rs","src/id/ref.rs","src/literal/mod.rs","src/literal/ref.rs","src/literal/cow.rs","src/literal/type/mod.rs","src/literal/type/ref.rs","src/literal/type/cow.rs","src/term/mod.rs","src/term/ref.rs","src/term/cow.rs","src/term/local/mod.rs","src/term/local/ref.rs","src/term/local/cow.rs","src/triple.rs","src/quad.rs"],[("as_ref/as_cow/into_cow/to_owned/into_owned and accessors","files listed")],None,["converted values"])
p("C20","A reported isomorphism is a genuine blank node bijection",
 "Whenever two datasets are reported isomorphic, the returned mapping is a one-to-one correspondence between exactly the blank nodes of the two, given in both directions consistently, and renaming the blank nodes of the first through it gives exactly the quads of the second. In particular non-isomorphic datasets are never reported isomorphic.",
 ["inputs"],"for every pair of finite datasets (or graphs), including blank nodes in any position, shared or repeated",
 "The tests contain a fixed list of generated pairs and never check the returned mapping.",[ISO],[("find_bijection_with, signature matching, backtracking search",ISO)],None,["result of find_bijection / are_isomorphic"])
p("C21","Isomorphic datasets are always recognised",
 "If the blank nodes of one dataset can be renamed one-to-one so that it becomes the other, the two are reported isomorphic, however symmetric they are and in whichever order their quads were inserted. The answer is the same with the arguments swapped, and every dataset is isomorphic to itself.",
 ["inputs"],"for every dataset and every renaming of its blank nodes",
 "The tests contain a fixed list of positive pairs.",[ISO],[("candidate computation and backtracking search",ISO)],None,["result of find_bijection / are_isomorphic"])
p("C22","Interpretations map terms to resources and back consistently",
 "Under the transparent interpretation and the generator-backed ones, interpreting or inserting an IRI, literal or blank node gives the resource for that very term, and the terms reported for the resource are exactly that term; a resource is anonymous exactly when it has no IRI and no literal. Wrapping an interpretation with a generator answers every query as the wrapped interpretation does, and new resources are the generator's successive terms inserted in it.",
 ["inputs","histories"],"for every term, wrapped interpretation and sequence of requests",
 "No test uses interpretations other than as a parameter of the isomorphism tests.",["src/interpretation/mod.rs","src/interpretation/fallible.rs","src/interpretation/impl/none.rs","src/interpretation/impl/with_generator.rs","src/term/generator/interpretation.rs"],[("trait default methods and delegating impls","files listed")],None,["results of the interpretation methods"])
p("C23","Serialised values read back equal",
 "With serialisation enabled, serialising a term, literal, triple, quad (of terms or of components of patterns), graph or dataset and deserialising it yields an equal value, and invalid blank node identifiers are rejected on input.",
 ["inputs","configurations"],"for every value and self-describing data format",
 "No test serialises or reads back anything; invalid labels, repeated statements, and texts that could be read as another kind of term need every value and document.",["src/blankid.rs",BG,IG,BD,ID,"src/term/mod.rs","src/term/local/mod.rs","src/literal/mod.rs","src/literal/type/mod.rs","src/triple.rs","src/quad.rs","src/pattern/resource_or_variable.rs"],[("Serialize/Deserialize impls and derives","files listed")],None,["deserialised values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
