#!/usr/bin/env python3
"""Writes verus/pattern_map_core.rs: contracts of the maps keyed by triple patterns."""
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "pattern/triple/map.rs"
o = ["// ---- maps keyed by triple patterns (generated by tools/mkmap.py)"]
w = o.append
# name, pattern type, fields: (field, variant, kind, guard)   kind: the type the field holds values in
LEAF = "HashSet<V>"
G = {"same_as_subject": {1: "s == p", 2: "s == o"}, "same_as_predicate": {2: "p == o"}}
maps = [
 ("GivenSubjectGivenPredicate", "o", [("any", "AnyObject", None)], "GivenObject", None),
 ("GivenSubjectAnyPredicate", "o", [("any", "AnyObject", None), ("same_as_predicate", "SameAsPredicate", None)], "GivenObject", None),
 ("AnySubjectGivenPredicate", "o", [("any", "AnyObject", None), ("same_as_subject", "SameAsSubject", None)], "GivenObject", None),
 ("AnySubjectAnyPredicate", "o", [("any", "AnyObject", None), ("same_as_subject", "SameAsSubject", None), ("same_as_predicate", "SameAsPredicate", None)], "GivenObject", None),
 ("GivenSubject", "p", [("any", "AnyPredicate", "GivenSubjectAnyPredicate")], "GivenPredicate", "GivenSubjectGivenPredicate"),
 ("AnySubject", "p", [("any", "AnyPredicate", "AnySubjectAnyPredicate"), ("same_as_subject", "SameAsSubject", "AnySubjectGivenPredicate")], "GivenPredicate", "AnySubjectGivenPredicate"),
 ("CanonicalTriplePattern", "s", [("any", "AnySubject", "AnySubject")], "GivenSubject", "GivenSubject"),
]
for P, c, fs, gv, gt in maps:
    top = P == "CanonicalTriplePattern"
    M = "TriplePatternMap" if top else P + "Map"
    Vs = "Values" if top else P + "Values"
    own = "impl<V: Eq + Hash, T: Eq + Hash> %s<V, T>" % M
    w("#[verifier::reject_recursive_types(V)]\n#[verifier::reject_recursive_types(T)]\n//@item %s | %s" % (F, M))
    w("#[verifier::reject_recursive_types(V)]\n//@item %s | %s | ?`std::collections::hash_set::Iter` => `hash_set::Iter`" % (F, Vs))
    arms = []
    for f, var, ty in fs:
        arms.append("%s::%s%s => self.%s%s" % (P, var, "(q)" if ty else "", f, ".holds(q, v)" if ty else "@.contains(v)"))
    arms.append("%s::%s(id%s) => under(self.given@, id, %s, v)" % (P, gv, ", q" if gt else "", "q" if gt else "()"))
    w("impl<V, T> Holds<%s<T>, V> for %s<V, T> {\n    open spec fn holds(&self, p: %s<T>, v: V) -> bool { match p { %s } }\n}" % (P, M, P, ", ".join(arms)))
    w("impl<V, T> Default for %s<V, T> {\n    open spec fn blank(&self) -> bool { %s }\n//@derive %s | %s | Default\n}" % (M, " && ".join("self.%s.blank()" % f for f in [x[0] for x in fs] + ["given"]), F, M))
    w("impl<V, T> %s<V, T> {\n    pub proof fn nothing()\n        ensures forall|m: Self, p: %s<T>, v: V| #![trigger m.holds(p, v)] #![trigger m.blank(), m.holds(p, v)] m.blank() ==> !m.holds(p, v)\n    { %s }" % (M, P, " ".join("%sMap::<V, T>::nothing();" % t for t in sorted({x for x in [y[2] for y in fs] + [gt] if x}))))
    # how many of the patterns holding v match the triple
    tot = []
    for f, var, ty in fs:
        k = "self.%s.total(s, p, o, v)" % f if ty else "n(self.%s@.contains(v))" % f
        g = {"any": None, "same_as_subject": "s == " + c, "same_as_predicate": "p == " + c}[f]
        tot.append("(if %s { %s } else { 0 })" % (g, k) if g else k)
    tot.append("(if self.given@.contains_key(%s) { self.given@[%s].total(s, p, o, v) } else { 0 })" % (c, c) if gt else "n(under(self.given@, o, (), v))")
    w("    pub open spec fn total(&self, s: T, p: T, o: T, v: V) -> nat { %s }\n}" % " + ".join(tot))
    # values
    w("impl<'a, V> %s<'a, V> {" % Vs)
    parts = ["self.any.rest()"] + ["(match self.%s { Some(i) => i.rest(), None => Seq::empty() })" % f for f in [x[0] for x in fs[1:]] + ["given"]]
    r = parts[-1]
    for q in reversed(parts[:-1]): r = "%s + (%s)" % (q, r)
    w("    pub open spec fn rest(&self) -> Seq<V> { %s }" % r)
    w("//@fn %s | impl<'a, V> Iterator for %s<'a, V> | next\n//@ ret r\n//@ inline *\n//@ subst? `Self::Item` => `&'a V`\n//@ spec ensures stepr(old(self).rest(), final(self).rest(), r)\n//@end\n}" % (F, Vs))
    w("impl<V, T: Eq + Hash> %s<V, T> {" % M)
    w("//@fn %s | impl<V, T: Eq + Hash> %s<V, T> | get\n//@ ret r\n//@ inline *\n//@ spec ensures forall|v: V| #[trigger] times(r.rest(), v) == self.total(*$1.0, *$1.1, *$1.2, v)\n//@ proof T::eq_law();\n//@end\n}" % (F, M))
    w("impl<V: Eq + Hash, T: Eq + Hash> %s<V, T> {" % M)
    non = "".join("%sMap::<V, T>::nothing(); " % x for x in ([gt] if gt else []))
    w("//@fn %s | %s | insert\n//@ ret r\n//@ spec ensures r == !old(self).holds($1, $2), forall|p: %s<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || p == $1 && v == $2)\n//@ proof %s\n//@end" % (F, own, P, non or "assert(true);"))
    if not top:
        pt = "%s<T>" % gt if gt else "()"
        mt = "%sMap<V, T>" % gt if gt else "HashSet<V>"
        w("""//@fn %s | %s | union_with
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ into 0 HashMap::into_iter
//@ loop 0 invariant forall|k: T, p: %s, v: V| #![trigger under(self.given@, k, p, v)] #![trigger under(old(self).given@, k, p, v)] (under(self.given@, k, p, v) || ahead(__it0.rest(), k, p, v)) == (under(old(self).given@, k, p, v) || under($1.given@, k, p, v)),
//@|    %s
//@ spec ensures forall|p: %s<T>, v: V| #[trigger] final(self).holds(p, v) == (old(self).holds(p, v) || $1.holds(p, v))
//@ proof %s
//@|  assert forall|s: Seq<(T, %s)>| #[trigger] yields($1.given@, s) implies (forall|k: T, p: %s, v: V| #[trigger] ahead(s, k, p, v) == under($1.given@, k, p, v)) by { ahead_all::<T, %s, V, %s>($1.given@, s); }
//@end""" % (F, own, pt,
            ", ".join(("forall|p: %s<T>, v: V| #[trigger] self.%s.holds(p, v) == (old(self).%s.holds(p, v) || $1.%s.holds(p, v))" % (ty, f, f, f)) if ty else ("self.%s@ == old(self).%s@.union($1.%s@)" % (f, f, f)) for f, _, ty in fs),
            P, non, mt, pt, pt, mt))
    w("}")
open(os.path.join(H, "verus", "pattern_map_core.rs"), "w").write("\n".join(o) + "\n")
