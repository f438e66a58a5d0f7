// ---- the RDF form of a store: one line per statement, in the order it lists them, each ended by " ." and a line break
pub open spec fn lines<R: RdfDisplay>(p: Seq<char>, l: Seq<@T@<R>>) -> Seq<char>
    decreases l.len()
{ if l.len() == 0 { p } else { lines(p + l[0].rdf() + seq![' ', '.', '\n'], l.skip(1)) } }
pub broadcast proof fn lines_from<R: RdfDisplay>(p: Seq<char>, q: Seq<char>, l: Seq<@T@<R>>)
    ensures #[trigger] lines(p + q, l) == p + lines(q, l)
    decreases l.len()
{
    if l.len() > 0 {
        let e = l[0].rdf() + seq![' ', '.', '\n'];
        assert((p + q) + l[0].rdf() + seq![' ', '.', '\n'] =~= p + (q + l[0].rdf() + seq![' ', '.', '\n']));
        lines_from(p, q + l[0].rdf() + seq![' ', '.', '\n'], l.skip(1));
    }
}
pub open spec fn store_rdf<R: RdfDisplay>(l: Seq<@T@<R>>) -> Seq<char> { lines(Seq::empty(), l) }
impl<R: Ord + RdfDisplay> @S@<R> {
//@fn @F@ | impl<R: RdfDisplay> RdfDisplay for @S@<R> | rdf_fmt
//@ subst? `std::fmt` => `fmt`
//@ ret r
//@ into 0 Self::ref_into_iter
//@ loop 0 invariant __it0.ok(), lines($1@, __it0.rest()) == lines(old($1)@, self.list())
//@| decreases __it0.rest().len()
//@ spec requires self.base()
//@| ensures r is Ok ==> final($1)@ == old($1)@ + store_rdf(self.list())
//@ proof lines_from(old($1)@, Seq::empty(), self.list());
//@end
}
