// ---- statements: their components separated by one space
impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay> RdfDisplay for Triple<S, P, O> { open spec fn rdf(&self) -> Seq<char> { self.0.rdf() + seq![' '] + self.1.rdf() + seq![' '] + self.2.rdf() } open spec fn rdf_fixed(&self) -> bool { true }
//@fn triple.rs | impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay> RdfDisplay for Triple<S, P, O> | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay> Shown for Triple<S, P, O> { open spec fn shown(&self) -> Seq<char> { self.0.rdf() + seq![' '] + self.1.rdf() + seq![' '] + self.2.rdf() } open spec fn fixed(&self) -> bool { true }
//@fn triple.rs | impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay> fmt::Display for Triple<S, P, O> | fmt
//@  bare
//@  ret r
//@end
}
