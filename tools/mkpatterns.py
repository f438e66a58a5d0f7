#!/usr/bin/env python3
"""Writes verus/patterns_triple.rs and verus/patterns_quad.rs: contracts of every function of
pattern/triple/canonical.rs and pattern/quad/canonical.rs (setters: patterns_set.rs)."""
import os
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus")
SAME = {"s": "SameAsSubject", "p": "SameAsPredicate", "o": "SameAsObject"}
KIND = {"sp": "PatternSubject", "pp": "PatternPredicate", "op": "PatternObject", "gp": "PatternGraph"}
ACC = {"sp": "subject", "pp": "predicate", "op": "object", "gp": "graph"}
OBJ = {"AnySubjectAnyPredicate": "sp", "AnySubjectGivenPredicate": "s", "GivenSubjectAnyPredicate": "p", "GivenSubjectGivenPredicate": ""}
LEAF = {
    "AnySubjectAnyPredicateAnyObject": "spo", "GivenSubjectAnyPredicateAnyObject": "po", "AnySubjectGivenPredicateAnyObject": "so",
    "AnySubjectAnyPredicateGivenObject": "sp", "AnySubjectGivenPredicateGivenObject": "s", "GivenSubjectAnyPredicateGivenObject": "p",
    "GivenSubjectGivenPredicateAnyObject": "o", "GivenSubjectGivenPredicateGivenObject": "",
}

def gen(quad):
    F = "pattern/%s/canonical.rs" % ("quad" if quad else "triple")
    TOP = "CanonicalQuadPattern" if quad else "CanonicalTriplePattern"
    out = []; w = out.append
    w("// (written by tools/mkpatterns.py)")
    kinds = ["sp", "pp", "op"] + (["gp"] if quad else [])
    for k in kinds: w("//@item %s | %s" % (F, KIND[k]))
    types = [TOP, "AnySubject", "GivenSubject"] + list(OBJ) + (list(LEAF) if quad else [])
    for n in types: w("//@item %s | %s" % (F, n))
    has = {n: ["gp"] for n in LEAF}
    has.update({n: ["op"] + (["gp"] if quad else []) for n in OBJ})
    has.update({n: ["pp", "op"] + (["gp"] if quad else []) for n in ("AnySubject", "GivenSubject")})
    has[TOP] = kinds
    def fn(ty, name, spec, ret="r", extra=(), owner=None):
        w("//@fn %s | %s | %s" % (F, owner or "impl<T> %s<T>" % ty, name))
        pre = "requires variables::<X>() ensures "
        if spec.startswith(pre): spec = "ensures variables::<X>() ==> (%s)" % spec[len(pre):].replace(", r.", " && r.")
        w("//@ ret " + ret)
        for e in extra: w("//@ " + e)
        w("//@ spec " + spec); w("//@end")
    # the constraint on each component, read off the constructors
    def specs(ty):
        if ty in LEAF:
            arms = ["%s::AnyGraph => PatternGraph::Any" % ty] + ["%s::%s => PatternGraph::%s" % (ty, SAME[c], SAME[c]) for c in LEAF[ty]] + ["%s::GivenGraph(r) => PatternGraph::Given(r)" % ty]
            w("    pub open spec fn gp(self) -> PatternGraph<T> { match self { %s } }" % ", ".join(arms))
        elif ty in OBJ:
            v = ["AnyObject"] + [SAME[c] for c in OBJ[ty]]
            q = "(q)" if quad else ""
            w("    pub open spec fn op(self) -> PatternObject<T> { match self { %s } }" % ", ".join(["%s::%s%s => PatternObject::%s" % (ty, x, q, x.replace("AnyObject", "Any")) for x in v] + ["%s::GivenObject(r%s) => PatternObject::Given(r)" % (ty, ", q" if quad else "")]))
            if quad: w("    pub open spec fn gp(self) -> PatternGraph<T> { match self { %s } }" % ", ".join(["%s::%s(q) => q.gp()" % (ty, x) for x in v] + ["%s::GivenObject(r, q) => q.gp()" % ty]))
        elif ty != TOP:
            v = ["AnyPredicate"] + (["SameAsSubject"] if ty == "AnySubject" else [])
            w("    pub open spec fn pp(self) -> PatternPredicate<T> { match self { %s } }" % ", ".join(["%s::%s(q) => PatternPredicate::%s" % (ty, x, x.replace("AnyPredicate", "Any")) for x in v] + ["%s::GivenPredicate(r, q) => PatternPredicate::Given(r)" % ty]))
            for f in has[ty][1:]:
                w("    pub open spec fn %s(self) -> %s<T> { match self { %s } }" % (f, KIND[f], ", ".join(["%s::%s(q) => q.%s()" % (ty, x, f) for x in v] + ["%s::GivenPredicate(r, q) => q.%s()" % (ty, f)])))
        else:
            w("    pub open spec fn sp(self) -> PatternSubject<T> { match self { %s::AnySubject(q) => PatternSubject::Any, %s::GivenSubject(r, q) => PatternSubject::Given(r) } }" % (TOP, TOP))
            for f in kinds[1:]:
                w("    pub open spec fn %s(self) -> %s<T> { match self { %s::AnySubject(q) => q.%s(), %s::GivenSubject(r, q) => q.%s() } }" % (f, KIND[f], TOP, f, TOP, f))
    for ty in types:
        w("impl<T> %s<T> {" % ty)
        specs(ty)
        w("}")
    # references read as what they refer to; constraints related resource by resource
    for k in kinds:
        K = KIND[k]
        sames = [SAME[c] for c in {"sp": "", "pp": "s", "op": "sp", "gp": "spo"}[k]]
        plain = ["Any"] + sames
        g = k == "gp"
        w("pub open spec fn deref_%s<T>(c: %s<&T>) -> %s<T> { match c { %s, %s::Given(x) => %s::Given(%s) } }" % (k, K, K, ", ".join("%s::%s => %s::%s" % (K, x, K, x) for x in plain), K, K, "deref_opt(x)" if g else "*x"))
        rel = "match (a, b) { %s, (%s::Given(x), %s::Given(y)) => %s, _ => false }"
        gr = "match (x, y) { (None, None) => true, (Some(x), Some(y)) => f(x, y), _ => false }" if g else "f(x, y)"
        w("pub open spec fn rel_%s<T, U>(a: %s<T>, b: %s<U>, f: spec_fn(T, U) -> bool) -> bool { %s }" % (k, K, K, rel % (", ".join("(%s::%s, %s::%s) => true" % (K, x, K, x) for x in plain), K, K, gr)))
        gr2 = "match (x, y, z) { (None, None, None) => true, (Some(x), Some(y), Some(z)) => f(x, y, z), _ => false }" if g else "f(x, y, z)"
        w("pub open spec fn rel2_%s<T, U, V>(a: %s<T>, b: %s<U>, c: %s<V>, f: spec_fn(T, U, V) -> bool) -> bool { match (a, b, c) { %s, (%s::Given(x), %s::Given(y), %s::Given(z)) => %s, _ => false } }" % (k, K, K, K, ", ".join("(%s::%s, %s::%s, %s::%s) => true" % (K, x, K, x, K, x) for x in plain), K, K, K, gr2))
    # meaning
    tup = "(S, P, O)"
    # the constraint a pattern with variables puts on each component
    w("pub open spec fn of_sp<T, X: PartialEq>(s: ResourceOrVar<T, X>) -> PatternSubject<T> { match s { ResourceOrVar::Resource(x) => PatternSubject::Given(x), ResourceOrVar::Var(v) => PatternSubject::Any } }")
    w("pub open spec fn of_pp<T, X: PartialEq>(s: Option<X>, p: ResourceOrVar<T, X>) -> PatternPredicate<T> { match p { ResourceOrVar::Resource(x) => PatternPredicate::Given(x), ResourceOrVar::Var(v) => if shares(v, s) { PatternPredicate::SameAsSubject } else { PatternPredicate::Any } } }")
    w("pub open spec fn of_op<T, X: PartialEq>(s: Option<X>, p: Option<X>, o: ResourceOrVar<T, X>) -> PatternObject<T> { match o { ResourceOrVar::Resource(x) => PatternObject::Given(x), ResourceOrVar::Var(v) => if shares(v, s) { PatternObject::SameAsSubject } else if shares(v, p) { PatternObject::SameAsPredicate } else { PatternObject::Any } } }")
    if quad:
        w("pub open spec fn of_gp<T, X: PartialEq>(s: Option<X>, p: Option<X>, o: Option<X>, g: Option<ResourceOrVar<T, X>>) -> PatternGraph<T> { match g { None => PatternGraph::Given(None), Some(ResourceOrVar::Resource(x)) => PatternGraph::Given(Some(x)), Some(ResourceOrVar::Var(v)) => if shares(v, s) { PatternGraph::SameAsSubject } else if shares(v, p) { PatternGraph::SameAsPredicate } else if shares(v, o) { PatternGraph::SameAsObject } else { PatternGraph::Any } } }")
    # what each constraint asks
    w("pub open spec fn sat_sp<T>(c: PatternSubject<T>, s: T) -> bool { match c { PatternSubject::Any => true, PatternSubject::Given(r) => s == r } }")
    w("pub open spec fn sat_pp<T>(c: PatternPredicate<T>, s: T, p: T) -> bool { match c { PatternPredicate::Any => true, PatternPredicate::SameAsSubject => p == s, PatternPredicate::Given(r) => p == r } }")
    w("pub open spec fn sat_op<T>(c: PatternObject<T>, s: T, p: T, o: T) -> bool { match c { PatternObject::Any => true, PatternObject::SameAsSubject => o == s, PatternObject::SameAsPredicate => o == p, PatternObject::Given(r) => o == r } }")
    if quad: w("pub open spec fn sat_gp<T>(c: PatternGraph<T>, s: T, p: T, o: T, g: Option<T>) -> bool { match c { PatternGraph::Any => true, PatternGraph::SameAsSubject => g == Some(s), PatternGraph::SameAsPredicate => g == Some(p), PatternGraph::SameAsObject => g == Some(o), PatternGraph::Given(r) => g == r } }")
    if quad:
        w("pub open spec fn sat<T>(c: CanonicalQuadPattern<T>, u: Quad<T>) -> bool { sat_sp(c.sp(), u.0) && sat_pp(c.pp(), u.0, u.1) && sat_op(c.op(), u.0, u.1, u.2) && sat_gp(c.gp(), u.0, u.1, u.2, u.3) }")
    else:
        w("pub open spec fn sat<T>(c: CanonicalTriplePattern<T>, u: Triple<T>) -> bool { sat_sp(c.sp(), u.0) && sat_pp(c.pp(), u.0, u.1) && sat_op(c.op(), u.0, u.1, u.2) }")
    # accessors of the components
    for k in kinds:
        K = KIND[k]
        val = "Given(x) => %s" % ("x is Some ==> r is Some && *r->0 == x->0, x is None ==> r is None" if 0 else "")
        if k != "gp":
            w("impl<T> %s<T> {" % K)
            fn(K, "id", "ensures match *self { %s::Given(x) => r is Some && *r->0 == x, _ => r is None }" % K)
            fn(K, "into_id", "ensures match self { %s::Given(x) => r == Some(x), _ => r is None }" % K)
            w("}")
            w("impl<T> %s<&T> {" % K)
            fn(K, "cloned", "ensures r == deref_%s(self)" % k, owner="impl<T> %s<&T>" % K)
            w("}")
    w("impl<T: PartialEq> PatternObject<T> {")
    fn("PatternObject", "filter_triple", "ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == match *self { PatternObject::Any => true, PatternObject::SameAsSubject => same($1.2, $1.0), PatternObject::SameAsPredicate => same($1.2, $1.1), PatternObject::Given(x) => same($1.2, x) }", owner="impl<T: PartialEq> PatternObject<T>")
    w("}")
    # variables at a node: (s, p, o) as Option<X> terms of from_pattern's arguments
    for ty in types:
        w("impl<T> %s<T> {" % ty)
        ks = has[ty]
        def allk(fmt): return ", ".join(fmt.replace("%k", k) for k in ks)
        for k in ks:
            fn(ty, ACC[k], "ensures deref_%s(r) == self.%s()" % (k, k))
            fn(ty, "into_" + ACC[k], "ensures r == self.%s()" % k)
        if quad:
            fn(ty, "as_ref", "ensures " + allk("deref_%k(r.%k()) == self.%k()"))
            if ty not in LEAF:
                fn(ty, "into_parts", "ensures " + ", ".join("r.%d == self.%s()" % (i, k) for i, k in enumerate(ks)))
                TP = "triple::canonical::"
                fn(ty, "into_triple", "ensures " + ", ".join("triple_%s(r.0.%s(), self.%s())" % (k, k, k) for k in ks if k != "gp") + ", r.1 == self.gp()")
            fs = "|x: T, y: U| $1.ensures((x,), y)"
            fn(ty, "map", "requires forall|x: T| #[trigger] $1.requires((x,)) ensures " + allk("rel_%k(self.%k(), r.%k(), " + fs + ")"))
            fs = "|x: T, y: U, z: V| $1.ensures((x,), (y, z))"
            fn(ty, "map2", "requires forall|x: T| #[trigger] $1.requires((x,)) ensures " + allk("rel2_%k(self.%k(), r.0.%k(), r.1.%k(), " + fs + ")"))
        else:
            fn(ty, "with_any_graph", "ensures " + ", ".join("triple_%s(self.%s(), r.%s())" % (k, k, k) for k in ks) + ", r.gp() is Any")
            if ty.startswith("GivenSubject") and ty in OBJ:
                fn(ty, "as_given", "ensures match self.op() { PatternObject::Given(x) => r is Some && *r->0 == x, _ => r is None }")
        # constructors
        opt = lambda v: "match $%d { Some(x) => %s, None => %s }" % v
        if ty in LEAF:
            fn(ty, "from_option", "ensures r.gp() == opt_gp($0)")
            vs = LEAF[ty]
            a = {c: "Some($%d)" % i for i, c in enumerate(vs)}
            g = "$%d" % len(vs)
            full = [a.get(c, "None") for c in "spo"]
            X = "X" if vs else ""
            if vs:
                fn(ty, "from_pattern", "requires variables::<X>() ensures r.gp() == of_gp(%s, %s)" % (", ".join(full), g))
            else:
                fn(ty, "from_pattern", "ensures match $0 { None => r.gp() == PatternGraph::<T>::Given(None), Some(ResourceOrVar::Resource(x)) => r.gp() == PatternGraph::Given(Some(x)), Some(ResourceOrVar::Var(v)) => r.gp() is Any }")
        elif ty in OBJ:
            fn(ty, "from_option", "ensures r.op() == opt_op($0)" + (", r.gp() == opt_gp($1)" if quad else ""))
            vs = OBJ[ty]
            a = {c: "Some($%d)" % i for i, c in enumerate(vs)}
            o = "$%d" % len(vs); g = "$%d" % (len(vs) + 1)
            s, p = a.get("s", "None"), a.get("p", "None")
            pre = []
            if vs == "sp": pre = ["!$1.eq_spec(&$0)"]
            if not vs and not quad:
                fn(ty, "from_pattern", "ensures match $0 { ResourceOrVar::Resource(x) => r.op() == PatternObject::Given(x), ResourceOrVar::Var(v) => r.op() is Any }")
            else:
                fn(ty, "from_pattern", "requires variables::<X>() ensures r.op() == of_op(%s, %s, %s)" % (s if vs else "None::<X>", p, o) + (", r.gp() == of_gp(%s, %s, var(%s), %s)" % (s, p, o, g) if quad else ""))
        elif ty != TOP:
            fn(ty, "from_option_" + ("quad" if quad else "triple"), "ensures r.pp() == opt_pp($0), r.op() == opt_op($1)" + (", r.gp() == opt_gp($2)" if quad else ""))
            if ty == "AnySubject": s, i = "Some($0)", 1
            else: s, i = "None", 0
            p, o, g = "$%d" % i, "$%d" % (i + 1), "$%d" % (i + 2)
            fn(ty, "from_pattern", "requires variables::<X>() ensures r.pp() == of_pp(%s, %s), r.op() == of_op(%s, var(%s), %s)" % (s, p, s, p, o) + (", r.gp() == of_gp(%s, var(%s), var(%s), %s)" % (s, p, o, g) if quad else ""))
        else:
            given = ", ".join("r.%s() == %s::Given($0.%d)" % (k, KIND[k], i) for i, k in enumerate(kinds[:3]))
            fn(ty, "from_triple", "ensures " + given + (", r.gp() is Any" if quad else ""))
            fn(ty, "from_option_triple", "ensures r.sp() == opt_sp($0.0), r.pp() == opt_pp($0.1), r.op() == opt_op($0.2)" + (", r.gp() is Any" if quad else ""))
            pat = "r.sp() == of_sp($0.0), r.pp() == of_pp(var($0.0), $0.1), r.op() == of_op(var($0.0), var($0.1), $0.2)"
            if quad:
                fn(ty, "from_quad", "ensures " + given + ", r.gp() == PatternGraph::Given($0.3)")
                fn(ty, "from_option_quad", "ensures r.sp() == opt_sp($0.0), r.pp() == opt_pp($0.1), r.op() == opt_op($0.2), r.gp() == opt_gp($0.3)")
                fn(ty, "from_triple_pattern", "requires variables::<X>() ensures %s, r.gp() == PatternGraph::<T>::Given(None)" % pat)
                fn(ty, "from_pattern", "requires variables::<X>() ensures %s, r.gp() == of_gp(var($0.0), var($0.1), var($0.2), $0.3)" % pat)
            else:
                fn(ty, "from_pattern", "requires variables::<X>() ensures " + pat)
        w("}")
    if not quad:
        C = "CanonicalTriplePattern<T>"
        w("pub open spec fn set_sp<T>(a: %s, s: T, r: PatternSubject<T>, b: %s) -> bool { r == a.sp() && b.sp() == PatternSubject::Given(s) && b.pp() == (if a.pp() is SameAsSubject { PatternPredicate::Given(s) } else { a.pp() }) && b.op() == (if a.op() is SameAsSubject { PatternObject::Given(s) } else { a.op() }) }" % (C, C))
        body_p = "r == a.pp() && %s b.pp() == PatternPredicate::Given(p) && b.op() == (if a.op() is SameAsPredicate || (a.pp() is SameAsSubject && a.op() is SameAsSubject) { PatternObject::Given(p) } else { a.op() })"
        body_o = "r == a.op() && %s b.op() == PatternObject::Given(o) && b.pp() == (if a.op() is SameAsPredicate || (a.op() is SameAsSubject && a.pp() is SameAsSubject) { PatternPredicate::Given(o) } else { a.pp() })"
        w("pub open spec fn set_pp<T>(a: %s, p: T, r: PatternPredicate<T>, b: %s) -> bool { %s }" % (C, C, body_p % "b.sp() == (if a.pp() is SameAsSubject { PatternSubject::Given(p) } else { a.sp() }) &&"))
        w("pub open spec fn set_op<T>(a: %s, o: T, r: PatternObject<T>, b: %s) -> bool { %s }" % (C, C, body_o % "b.sp() == (if a.op() is SameAsSubject { PatternSubject::Given(o) } else { a.sp() }) &&"))
        for ty in ("AnySubject", "GivenSubject"):
            # the subject is not part of it: fixing a component equal to it leaves the subject to the caller
            w("pub open spec fn %s_set_pp<T>(a: %s<T>, p: T, r: PatternPredicate<T>, b: %s<T>) -> bool { %s }" % (ty.lower(), ty, ty, body_p % ""))
            w("pub open spec fn %s_set_op<T>(a: %s<T>, o: T, r: PatternObject<T>, b: %s<T>) -> bool { %s }" % (ty.lower(), ty, ty, body_o % ""))
        for ty in [TOP, "AnySubject", "GivenSubject"]:
            w("impl<T> %s<T> {" % ty)
            for k in has[ty]:
                nm = ("" if ty == TOP else ty.lower() + "_") + "set_" + k
                fn(ty, "set_" + ACC[k], "ensures %s(*old(self), $1, r, *final(self))" % nm, extra=["closure 0 (%s<T>) -> res__: (%s<T>, %s<T>) ensures %s(c0, $1, res__.0, res__.1)" % (ty, KIND[k], ty, nm)])
                if ty == TOP: fn(ty, "with_" + ACC[k], "ensures exists|old: %s<T>| %s(self, $1, old, r)" % (KIND[k], nm))
            w("}")
        for ty in OBJ:
            w("impl<T> %s<T> {" % ty)
            fn(ty, "set_object", "ensures r == old(self).op(), final(self).op() == PatternObject::Given($1)")
            w("}")
    for k in kinds:
        K = KIND[k]
        g = k == "gp"
        w("pub open spec fn opt_%s<T>(x: Option<%s>) -> %s<T> { match x { Some(x) => %s::Given(x), None => %s::Any } }" % (k, "Option<T>" if g else "T", K, K, K))
    return "\n".join(out) + "\n"

for q, n in ((False, "triple"), (True, "quad")):
    open(os.path.join(HERE, "patterns_%s.rs" % n), "w").write(gen(q))
