#!/usr/bin/env python3
"""Writes verus/statements_core.rs: contracts of triple.rs and quad.rs."""
o=[]
def w(s): o.append(s)
w("// (generated by tools/mkstatements.py)")
def fn(f, owner, name, spec, *d):
    w("//@fn %s | %s | %s" % (f, owner, name)); w("//@  ret r"); w("//@  named")
    for x in d: w("//@  " + x)
    w("//@  spec " + spec); w("//@end")
N=["subject","predicate","object","graph"]
for ty,f,cs in (("Triple","triple.rs","S P O"),("Quad","quad.rs","S P O G")):
    L=cs.split(); n=len(L); q=n==4
    A=", ".join(L); T="%s<%s>"%(ty,A); RT="%s<%s>"%(ty,", ".join("&"+x for x in L))
    imp="impl<%s> %s"%(A,T)
    same=lambda skip: ["r.%d == self.%d"%(i,i) for i in range(n) if i!=skip]
    w(imp+" {")
    if q: fn(f,imp,"new","ensures r == Quad($0, $1, $2, $3)")
    else: fn(f,imp,"new","ensures r == Triple($0, $1, $2)")
    for i in range(3):
        fn(f,imp,N[i],"ensures *r == self.%d"%i)
        fn(f,imp,N[i]+"_mut","ensures *r == old(self).%d, *final(self) == %s(%s)"%(i,ty,", ".join("*final(r)" if j==i else "old(self).%d"%j for j in range(n))))
        fn(f,imp,"into_"+N[i],"ensures r == self.%d"%i)
    if q:
        fn(f,imp,"graph","ensures r == as_ref_opt(&self.3)")
        fn(f,imp,"graph_mut","ensures match r { Some(x) => old(self).3 == Some(*x) && *final(self) == Quad(old(self).0, old(self).1, old(self).2, Some(*final(x))), None => old(self).3 is None && *final(self) == *old(self) }")
        fn(f,imp,"into_graph","ensures r == self.3")
        fn(f,imp,"into_triple","ensures r == (Triple(self.0, self.1, self.2), self.3)")
        fn(f,imp,"with_graph","ensures r == Quad(self.0, self.1, self.2, $1)")
        fn(f,imp,"map_all","requires $1.requires((self.0,)), $2.requires((self.1,)), $3.requires((self.2,)), $4.requires((self.3,)) ensures $1.ensures((self.0,), r.0), $2.ensures((self.1,), r.1), $3.ensures((self.2,), r.2), $4.ensures((self.3,), r.3)")
        fn(f,imp,"borrow_components","ensures *r.0 == self.0, *r.1 == self.1, *r.2 == self.2, r.3 == as_ref_opt(&self.3)")
    else:
        fn(f,imp,"into_quad","ensures r == Quad(self.0, self.1, self.2, $1)")
    fn(f,imp,"into_parts","ensures r == (%s)"%", ".join("self.%d"%i for i in range(n)))
    for i in range(n):
        fn(f,imp,"map_"+N[i],"requires $1.requires((self.%d,)) ensures $1.ensures((self.%d,), r.%d), %s"%(i,i,i,", ".join(same(i))))
    fn(f,imp,"as_ref","ensures *r.0 == self.0, *r.1 == self.1, *r.2 == self.2"+(", r.3 == as_ref_opt(&self.3)" if q else ""))
    w("}")
    imp="impl<%s> %s"%(A,RT)
    w(imp+" {")
    for nm in ("cloned","into_cloned"):
        fn(f,imp,nm,"ensures "+", ".join("cloned::<%s>(*self.%d, r.%d)"%(L[i],i,i) for i in range(3))+(", match self.3 { Some(x) => r.3 is Some && cloned::<G>(*x, r.3->0), None => r.3 is None }" if q else ""))
    for nm in ("copied","into_copied"):
        fn(f,imp,nm,"ensures "+", ".join("r.%d == *self.%d"%(i,i) for i in range(3))+(", r.3 == copy_opt(self.3)" if q else ""))
    w("}")
    X=", ".join(["T"]*n)
    imp="impl<T> %s<%s>"%(ty,X)
    w(imp+" {")
    fn(f,imp,"map","requires forall|x: T| #[trigger] $1.requires((x,)) ensures "+", ".join("$1.ensures((self.%d,), r.%d)"%(i,i) for i in range(3))+(", match self.3 { Some(x) => r.3 is Some && $1.ensures((x,), r.3->0), None => r.3 is None }" if q else ""))
    w("}")
    # comparisons
    both=lambda tr: ", ".join("%s1: %s<%s2>"%(x,tr,x) for x in L)+", "+", ".join(x+"2" for x in L)
    t1="%s<%s>"%(ty,", ".join(x+"1" for x in L)); t2="%s<%s>"%(ty,", ".join(x+"2" for x in L))
    ob=lambda tr,m: " && ".join("<%s1 as %s<%s2>>::%s()"%(x,tr,x,m) for x in L)
    imp="impl<%s> PartialEq<%s> for %s"%(both("PartialEq"),t2,t1)
    w("impl<%s> PartialEqSpecImpl<%s> for %s { open spec fn obeys_eq_spec() -> bool { %s } open spec fn eq_spec(&self, o: &%s) -> bool { self.0.eq_spec(&o.0) && self.1.eq_spec(&o.1) && self.2.eq_spec(&o.2)%s } }"%(both("PartialEq"),t2,t1,ob("PartialEqSpec","obeys_eq_spec"),t2," && opt_eq(self.3, o.3)" if q else ""))
    w(imp+" {")
    srcimp=imp.replace("G2> PartialEq","G2,> PartialEq") if q else imp
    w("//@fn %s | %s | eq"%(f,srcimp)); w("//@  bare"); w("//@  ret r"); w("//@end"); w("}")
    imp="impl<%s> PartialOrd<%s> for %s"%(both("PartialOrd"),t2,t1)
    last="opt_partial_cmp(self.3, o.3)" if q else None
    w("impl<%s> PartialOrdSpecImpl<%s> for %s { open spec fn obeys_partial_cmp_spec() -> bool { %s } open spec fn partial_cmp_spec(&self, o: &%s) -> Option<Ordering> { %s } }"%(both("PartialOrd"),t2,t1,ob("PartialOrdSpec","obeys_partial_cmp_spec"),t2,
       "othen(self.0.partial_cmp_spec(&o.0), othen(self.1.partial_cmp_spec(&o.1), %s))"%("othen(self.2.partial_cmp_spec(&o.2), opt_partial_cmp(self.3, o.3))" if q else "self.2.partial_cmp_spec(&o.2)")))
    w(imp+" {")
    srcimp=imp.replace("G2> PartialOrd","G2,> PartialOrd") if q else imp
    w("//@fn %s | %s | partial_cmp"%(f,srcimp)); w("//@  bare"); w("//@  ret r"); w("//@end"); w("}")
    eqb=", ".join(x+": Eq" for x in L); ordb=", ".join(x+": Ord" for x in L)
    w("impl<%s> Eq for %s { }"%(eqb,T))
    w("impl<%s> OrdSpecImpl for %s { open spec fn obeys_cmp_spec() -> bool { %s } open spec fn cmp_spec(&self, o: &Self) -> Ordering { then(self.0.cmp_spec(&o.0), then(self.1.cmp_spec(&o.1), %s)) } }"%(ordb,T," && ".join("<%s as OrdSpec>::obeys_cmp_spec()"%x for x in L),
       "then(self.2.cmp_spec(&o.2), opt_cmp(self.3, o.3))" if q else "self.2.cmp_spec(&o.2)"))
    w("impl<%s> Ord for %s {"%(ordb,T)); w("//@derive %s | %s | Ord"%(f,ty)); w("}")
    hb=", ".join(x+": Hash" for x in L)
    w("impl<%s> Hash for %s { open spec fn fed(&self) -> Seq<Fed> { %s }"%(hb,T," + ".join("self.%d.fed()"%i for i in range(n)))); w("//@derive %s | %s | Hash"%(f,ty)); w("}")
w("""impl RdfTriple {
}""" if 0 else "")
# lexical forms
w("""impl Triple<Id, IriBuf, LocalTerm> {
//@fn triple.rs | impl LexicalTriple | as_lexical_triple_ref
//@  ret r
//@  subst `LexicalTripleRef` => `Triple<IdRef<'_>, &Iri, LocalTermRef<'_>>`
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v()
//@end
}
impl<'a> Triple<IdRef<'a>, &'a Iri, LocalTermRef<'a>> {
//@fn triple.rs | impl LexicalTripleRef<'_> | into_owned
//@  ret r
//@  subst `LexicalTriple` => `Triple<Id, IriBuf, LocalTerm>`
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v()
//@end
}
impl Quad<Id, IriBuf, LocalTerm, Id> {
//@fn quad.rs | impl RdfQuad | as_lexical_quad_ref
//@  ret r
//@  subst `RdfQuadRef` => `Quad<IdRef<'_>, &Iri, LocalTermRef<'_>, IdRef<'_>>`
//@  eta
//@  closure 0 (&'_ Id) -> o: IdRef<'_> requires true ensures o.v() == c0.v()
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v(), match self.3 { Some(g) => r.3 is Some && (r.3->0).v() == g.v(), None => r.3 is None }
//@end
}
impl<'a> Quad<IdRef<'a>, &'a Iri, LocalTermRef<'a>, IdRef<'a>> {
//@fn quad.rs | impl RdfQuadRef<'_> | into_owned
//@  ret r
//@  subst `RdfQuad` => `Quad<Id, IriBuf, LocalTerm, Id>`
//@  eta
//@  closure 0 (IdRef<'_>) -> o: Id requires true ensures o.v() == c0.v()
//@  spec ensures r.0.v() == self.0.v(), r.1@ == self.1@, r.2.v() == self.2.v(), match self.3 { Some(g) => r.3 is Some && (r.3->0).v() == g.v(), None => r.3 is None }
//@end
}
""")
open("/verif/verus/statements_core.rs","w").write("\n".join(o))
