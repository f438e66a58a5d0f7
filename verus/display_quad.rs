impl<S, P, O, G> Quad<S, P, O, G> {
//@fn quad.rs | impl<S, P, O, G> Quad<S, P, O, G> | graph
//@  ret r
//@  spec ensures match r { Some(g) => self.3 == Some(*g), None => self.3 is None }
//@end
}
impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay, G: RdfDisplay> RdfDisplay for Quad<S, P, O, G> { open spec fn rdf(&self) -> Seq<char> { self.0.rdf() + seq![' '] + self.1.rdf() + seq![' '] + self.2.rdf() + (match self.3 { Some(g) => seq![' '] + g.rdf(), None => Seq::<char>::empty() }) } open spec fn rdf_fixed(&self) -> bool { true }
//@fn quad.rs | impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay, G: RdfDisplay> RdfDisplay for Quad<S, P, O, G> | rdf_fmt
//@  bare
//@  ret r
//@end
}
impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay, G: RdfDisplay> Shown for Quad<S, P, O, G> { open spec fn shown(&self) -> Seq<char> { self.0.rdf() + seq![' '] + self.1.rdf() + seq![' '] + self.2.rdf() + (match self.3 { Some(g) => seq![' '] + g.rdf(), None => Seq::<char>::empty() }) } open spec fn fixed(&self) -> bool { true }
//@fn quad.rs | impl<S: RdfDisplay, P: RdfDisplay, O: RdfDisplay, G: RdfDisplay> fmt::Display for Quad<S, P, O, G> | fmt
//@  bare
//@  ret r
//@end
}
