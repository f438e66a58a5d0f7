#!/usr/bin/env python3
"""Writes verus/quad_pattern.rs: the canonical quad pattern enums, their components, and the contracts of into_*."""
import os
F = "pattern/quad/canonical.rs"
out = []
w = out.append
w("// ---- canonical quad patterns: the enums of pattern/quad/canonical.rs and the components each stands for")
w("// (written by tools/mkpat.py)")
for n in ["PatternSubject", "PatternPredicate", "PatternObject", "PatternGraph"]:
    w("//@item %s | %s" % (F, n))
LEAF = {
    "AnySubjectAnyPredicateAnyObject": "spo", "GivenSubjectAnyPredicateAnyObject": "po", "AnySubjectGivenPredicateAnyObject": "so",
    "AnySubjectAnyPredicateGivenObject": "sp", "AnySubjectGivenPredicateGivenObject": "s", "GivenSubjectAnyPredicateGivenObject": "p",
    "GivenSubjectGivenPredicateAnyObject": "o", "GivenSubjectGivenPredicateGivenObject": "",
}
OBJ = {"AnySubjectAnyPredicate": "sp", "AnySubjectGivenPredicate": "s", "GivenSubjectAnyPredicate": "p", "GivenSubjectGivenPredicate": ""}
SAME = {"s": "SameAsSubject", "p": "SameAsPredicate", "o": "SameAsObject"}
for n in ["CanonicalQuadPattern", "AnySubject", "GivenSubject"] + list(OBJ) + list(LEAF):
    w("//@item %s | %s | #[derive(Clone, Copy)]" % (F, n))
def fn(ty, name, spec):
    w("//@fn %s | impl<T> %s<T> | %s" % (F, ty, name)); w("//@ ret r"); w("//@ spec ensures " + spec); w("//@end")
for ty, same in LEAF.items():
    w("impl<T> %s<T> {" % ty)
    arms = ["%s::AnyGraph => PatternGraph::Any" % ty] + ["%s::%s => PatternGraph::%s" % (ty, SAME[c], SAME[c]) for c in same] + ["%s::GivenGraph(r) => PatternGraph::Given(r)" % ty]
    w("    pub open spec fn gp(self) -> PatternGraph<T> { match self { %s } }" % ", ".join(arms))
    fn(ty, "into_graph", "r == self.gp()")
    w("}")
for ty, same in OBJ.items():
    w("impl<T> %s<T> {" % ty)
    v = ["AnyObject"] + [SAME[c] for c in same]
    w("    pub open spec fn op(self) -> PatternObject<T> { match self { %s } }" % ", ".join(["%s::%s(q) => PatternObject::%s" % (ty, x, x.replace("AnyObject", "Any")) for x in v] + ["%s::GivenObject(r, q) => PatternObject::Given(r)" % ty]))
    w("    pub open spec fn gp(self) -> PatternGraph<T> { match self { %s } }" % ", ".join(["%s::%s(q) => q.gp()" % (ty, x) for x in v] + ["%s::GivenObject(r, q) => q.gp()" % ty]))
    fn(ty, "into_object", "r == self.op()")
    fn(ty, "into_graph", "r == self.gp()")
    fn(ty, "into_parts", "r.0 == self.op(), r.1 == self.gp()")
    w("}")
for ty, v in [("AnySubject", ["AnyPredicate", "SameAsSubject"]), ("GivenSubject", ["AnyPredicate"])]:
    w("impl<T> %s<T> {" % ty)
    w("    pub open spec fn pp(self) -> PatternPredicate<T> { match self { %s } }" % ", ".join(["%s::%s(q) => PatternPredicate::%s" % (ty, x, x.replace("AnyPredicate", "Any")) for x in v] + ["%s::GivenPredicate(r, q) => PatternPredicate::Given(r)" % ty]))
    for f, r in [("op", "PatternObject"), ("gp", "PatternGraph")]:
        w("    pub open spec fn %s(self) -> %s<T> { match self { %s } }" % (f, r, ", ".join(["%s::%s(q) => q.%s()" % (ty, x, f) for x in v] + ["%s::GivenPredicate(r, q) => q.%s()" % (ty, f)])))
    fn(ty, "into_predicate", "r == self.pp()")
    fn(ty, "into_object", "r == self.op()")
    fn(ty, "into_graph", "r == self.gp()")
    fn(ty, "into_parts", "r.0 == self.pp(), r.1 == self.op(), r.2 == self.gp()")
    w("}")
ty = "CanonicalQuadPattern"
w("impl<T> %s<T> {" % ty)
w("    pub open spec fn sp(self) -> PatternSubject<T> { match self { CanonicalQuadPattern::AnySubject(q) => PatternSubject::Any, CanonicalQuadPattern::GivenSubject(r, q) => PatternSubject::Given(r) } }")
for f, r in [("pp", "PatternPredicate"), ("op", "PatternObject"), ("gp", "PatternGraph")]:
    w("    pub open spec fn %s(self) -> %s<T> { match self { CanonicalQuadPattern::AnySubject(q) => q.%s(), CanonicalQuadPattern::GivenSubject(r, q) => q.%s() } }" % (f, r, f, f))
for f, x in [("into_subject", "sp"), ("into_predicate", "pp"), ("into_object", "op"), ("into_graph", "gp")]:
    fn(ty, f, "r == self.%s()" % x)
fn(ty, "into_parts", "r.0 == self.sp(), r.1 == self.pp(), r.2 == self.op(), r.3 == self.gp()")
w("}")
w('''// what each component asks of a quad; Given(None) is the default graph
pub open spec fn sat_s<R>(c: PatternSubject<&R>, u: Quad<R>) -> bool { match c { PatternSubject::Any => true, PatternSubject::Given(r) => u.0 == *r } }
pub open spec fn sat_p<R>(c: PatternPredicate<&R>, u: Quad<R>) -> bool { match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => u.1 == u.0, PatternPredicate::Given(r) => u.1 == *r } }
pub open spec fn sat_o<R>(c: PatternObject<&R>, u: Quad<R>) -> bool {
    match c { PatternObject::Any => true, PatternObject::SameAsSubject => u.2 == u.0, PatternObject::SameAsPredicate => u.2 == u.1, PatternObject::Given(r) => u.2 == *r }
}
pub open spec fn sat_g<R>(c: PatternGraph<&R>, u: Quad<R>) -> bool {
    match c {
        PatternGraph::Any => true, PatternGraph::SameAsSubject => u.3 == Some(u.0), PatternGraph::SameAsPredicate => u.3 == Some(u.1),
        PatternGraph::SameAsObject => u.3 == Some(u.2), PatternGraph::Given(r) => u.3 == deref_opt(r),
    }
}
pub open spec fn sat<R>(c: CanonicalQuadPattern<&R>, u: Quad<R>) -> bool { sat_s(c.sp(), u) && sat_p(c.pp(), u) && sat_o(c.op(), u) && sat_g(c.gp(), u) }
// the same with a set of alternatives for each given component
pub open spec fn asked<R>(xs: Seq<&R>, v: Option<R>) -> bool { exists|x: &R| #[trigger] xs.contains(x) && v == Some(*x) }
pub open spec fn msat_s<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternSubject<P>, u: Quad<R>) -> bool { match c { PatternSubject::Any => true, PatternSubject::Given(x) => asked(x.items(), Some(u.0)) } }
pub open spec fn msat_p<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternPredicate<P>, u: Quad<R>) -> bool { match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => u.1 == u.0, PatternPredicate::Given(x) => asked(x.items(), Some(u.1)) } }
pub open spec fn msat_o<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternObject<P>, u: Quad<R>) -> bool {
    match c { PatternObject::Any => true, PatternObject::SameAsSubject => u.2 == u.0, PatternObject::SameAsPredicate => u.2 == u.1, PatternObject::Given(x) => asked(x.items(), Some(u.2)) }
}
pub open spec fn msat_g<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: PatternGraph<P>, u: Quad<R>) -> bool {
    match c {
        PatternGraph::Any => true, PatternGraph::SameAsSubject => u.3 == Some(u.0), PatternGraph::SameAsPredicate => u.3 == Some(u.1),
        PatternGraph::SameAsObject => u.3 == Some(u.2), PatternGraph::Given(Some(x)) => asked(x.items(), u.3), PatternGraph::Given(None) => u.3 is None,
    }
}
pub open spec fn msat<'p, R: 'p, P: IntoIterator<Item = &'p R>>(c: CanonicalQuadPattern<P>, u: Quad<R>) -> bool { msat_s(c.sp(), u) && msat_p(c.pp(), u) && msat_o(c.op(), u) && msat_g(c.gp(), u) }''')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus/quad_pattern.rs"), "w").write("\n".join(out) + "\n")
