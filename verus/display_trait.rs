// ---- the RDF form of a value
pub trait RdfDisplay {
    spec fn rdf(&self) -> Seq<char>;
    // the formatting options are ignored
    spec fn rdf_fixed(&self) -> bool;
    fn rdf_fmt(&self, f: &mut fmt::Formatter) -> (r: fmt::Result)
        ensures r is Ok && (old(f).plain() || self.rdf_fixed()) ==> final(f)@ == old(f)@ + self.rdf();
//@fn display.rs | trait RdfDisplay | rdf_display
//@  bare
//@  ret r
//@  spec ensures r.0 == self
//@end
}
//@item display.rs | RdfDisplayed

impl<T: RdfDisplay + ?Sized> RdfDisplay for &T { open spec fn rdf(&self) -> Seq<char> { (**self).rdf() } open spec fn rdf_fixed(&self) -> bool { (**self).rdf_fixed() }
//@fn display.rs | impl<T: RdfDisplay + ?Sized> RdfDisplay for &T | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl<T: RdfDisplay> Shown for RdfDisplayed<T> { open spec fn shown(&self) -> Seq<char> { self.0.rdf() } open spec fn fixed(&self) -> bool { self.0.rdf_fixed() }
//@fn display.rs | impl<T: RdfDisplay> fmt::Display for RdfDisplayed<T> | fmt
//@  bare
//@  ret r
//@end
}

