#!/usr/bin/env python3
"""Writes verus/text_cmp.rs: the comparisons assumed of iref, langtag, str between their owned and borrowed forms."""
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ["// ---- comparisons between owned and borrowed forms (generated by tools/mktext.py)"]
def pair(a, b, eq, cmp):
    o.append("""impl PartialEqSpecImpl<%(b)s> for %(a)s {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &%(b)s) -> bool { %(eq)s(self@, o@) }
}
impl PartialEq<%(b)s> for %(a)s {
    #[verifier::external_body]
    fn eq(&self, o: &%(b)s) -> (r: bool) { unimplemented!() }
}
impl PartialOrdSpecImpl<%(b)s> for %(a)s {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &%(b)s) -> Option<Ordering> { Some(%(cmp)s(self@, o@)) }
}
impl PartialOrd<%(b)s> for %(a)s {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &%(b)s) -> (r: Option<Ordering>) { unimplemented!() }
}""" % dict(a=a, b=b, eq=eq, cmp=cmp))
def both(a, b, e, c):
    for x in (a, b):
        for y in (a, b): pair(x, y, e, c)
    for x in (a, b):
        o.append("""impl Eq for %(a)s { }
impl OrdSpecImpl for %(a)s {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &%(a)s) -> Ordering { %(c)s(self@, o@) }
}
impl Ord for %(a)s {
    #[verifier::external_body]
    fn cmp(&self, o: &%(a)s) -> (r: Ordering) { unimplemented!() }
}""" % dict(a=x, c=c))
def out(f):
    open(os.path.join(H, "verus", f), "w").write("\n".join(o) + "\n")
both("Iri", "IriBuf", "iri_eq", "iri_cmp")
both("LangTag", "LangTagBuf", "tag_eq", "tag_cmp")
out("text_cmp.rs")
o[:] = ["// ---- comparisons of blank node identifiers: discharged in unit comparisons (generated by tools/mktext.py)"]
both("BlankId", "BlankIdBuf", "text_eq", "str_cmp")
out("blank_cmp.rs")
