// ---- the text reads back: it determines the value, and what follows it, as long as that starts with a space
pub open spec fn none_of(s: Seq<char>, d: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != d }
pub open spec fn tag_legal(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> within(#[trigger] s[i], 'a', 'z') || within(s[i], 'A', 'Z') || digit(s[i]) || s[i] == '-'
}
impl TypeV { pub open spec fn legal(self) -> bool { match self { TypeV::Any(i) => iri_legal(i), TypeV::Lang(t) => tag_legal(t) } } }
impl LocalV {
    // what valid IRIs, language tags and blank node labels hold
    pub open spec fn legal(self) -> bool {
        match self { LocalV::Anon(b) => label(b), LocalV::Named(TermV::Iri(i)) => iri_legal(i), LocalV::Named(TermV::Lit(l)) => l.ty.legal() }
    }
    // the same value: the same term, the datatype of plain strings being one for all its forms
    pub open spec fn same(self, o: LocalV) -> bool {
        match (self, o) {
            (LocalV::Named(TermV::Lit(a)), LocalV::Named(TermV::Lit(b))) => a.value == b.value && (a.ty == b.ty || a.ty.is_iri(xsd_string()) && b.ty.is_iri(xsd_string())),
            _ => self == o,
        }
    }
}
pub open spec fn ends(x: Seq<char>) -> bool { x.len() == 0 || x[0] == ' ' }
pub open spec fn body(s: Seq<char>) -> Seq<char> { escd(Seq::empty(), s) }
proof fn body_step(s: Seq<char>)
    requires s.len() > 0
    ensures body(s) == esc(s[0]) + body(s.skip(1))
{
    let e = Seq::<char>::empty();
    assert(e + esc(s[0]) =~= esc(s[0]) + e);
    escd_from(esc(s[0]), e, s.skip(1));
}
// escaping loses nothing and the closing quote is never mistaken
proof fn body_reads_back(s: Seq<char>, t: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires body(s) + seq!['"'] + x == body(t) + seq!['"'] + y
    ensures s == t, x == y
    decreases s.len()
{
    let l = body(s) + seq!['"'] + x; let r = body(t) + seq!['"'] + y;
    if s.len() > 0 { body_step(s); assert(l =~= esc(s[0]) + (body(s.skip(1)) + seq!['"'] + x)); }
    if t.len() > 0 { body_step(t); assert(r =~= esc(t[0]) + (body(t.skip(1)) + seq!['"'] + y)); }
    if s.len() == 0 {
        assert(body(s) =~= Seq::empty());
        assert(l[0] == '"');
        if t.len() > 0 { assert(r[0] == esc(t[0])[0]); }
        assert(body(t) =~= Seq::empty());
        assert(s =~= t);
        assert(l.skip(1) =~= x); assert(r.skip(1) =~= y);
    } else {
        assert(l[0] == esc(s[0])[0]);
        if t.len() == 0 { assert(r[0] == '"'); }
        assert(r[0] == esc(t[0])[0]);
        if esc(s[0]).len() == 2 && esc(t[0]).len() == 2 { assert(l[1] == esc(s[0])[1]); assert(r[1] == esc(t[0])[1]); }
        assert(s[0] == t[0]);
        let n = esc(s[0]).len() as int;
        assert(l.skip(n) =~= body(s.skip(1)) + seq!['"'] + x);
        assert(r.skip(n) =~= body(t.skip(1)) + seq!['"'] + y);
        body_reads_back(s.skip(1), t.skip(1), x, y);
        assert(s =~= seq![s[0]] + s.skip(1)); assert(t =~= seq![t[0]] + t.skip(1));
    }
}
// two texts ended alike, by a character they do not hold
proof fn cut(a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>, d: char)
    requires a + x == b + y, none_of(a, d), none_of(b, d), x.len() == 0 || x[0] == d, y.len() == 0 || y[0] == d
    ensures a == b, x == y
{
    let l = a + x; let r = b + y;
    assert(l.len() == r.len());
    if a.len() < b.len() { assert(l[a.len() as int] == x[0]); assert(r[a.len() as int] == b[a.len() as int]); }
    if b.len() < a.len() { assert(r[b.len() as int] == y[0]); assert(l[b.len() as int] == a[b.len() as int]); }
    assert(a =~= l.take(a.len() as int)); assert(b =~= r.take(b.len() as int));
    assert(x =~= l.skip(a.len() as int)); assert(y =~= r.skip(b.len() as int));
}
proof fn string_text(s: Seq<char>)
    ensures string_rdf(s) == seq!['"'] + body(s) + seq!['"'], string_rdf(s)[0] == '"'
{
    let q = seq!['"'];
    assert(q + Seq::<char>::empty() =~= q);
    escd_from(q, Seq::empty(), s);
    assert(string_rdf(s) =~= q + body(s) + q);
}
proof fn iri_reads_back(i: Seq<char>, j: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires iri_legal(i), iri_legal(j), iri_rdf(i) + x == iri_rdf(j) + y
    ensures i == j, x == y
{
    let l = iri_rdf(i) + x; let r = iri_rdf(j) + y;
    assert(l.skip(1) =~= i + (seq!['>'] + x)); assert(r.skip(1) =~= j + (seq!['>'] + y));
    cut(i, j, seq!['>'] + x, seq!['>'] + y, '>');
    assert((seq!['>'] + x).skip(1) =~= x); assert((seq!['>'] + y).skip(1) =~= y);
}
pub open spec fn kind(l: LitV) -> Seq<char> { if l.ty.is_iri(xsd_string()) { Seq::<char>::empty() } else { l.ty.rdf() } }
proof fn kind_reads_back(a: LitV, b: LitV, x: Seq<char>, y: Seq<char>)
    requires a.ty.legal(), b.ty.legal(), ends(x), ends(y), kind(a) + x == kind(b) + y
    ensures a.ty == b.ty || a.ty.is_iri(xsd_string()) && b.ty.is_iri(xsd_string()), x == y
{
    let l = kind(a) + x; let r = kind(b) + y;
    assert(x.len() > 0 && kind(a).len() == 0 ==> l[0] == ' '); assert(y.len() > 0 && kind(b).len() == 0 ==> r[0] == ' ');
    assert(kind(a).len() > 0 ==> l[0] == kind(a)[0]); assert(kind(b).len() > 0 ==> r[0] == kind(b)[0]);
    if a.ty.is_iri(xsd_string()) || b.ty.is_iri(xsd_string()) {
        assert(l.len() == kind(a).len() + x.len()); assert(r.len() == kind(b).len() + y.len());
        if a.ty.is_iri(xsd_string()) { assert(l =~= x); } else { assert(kind(a).len() > 0); }
        if b.ty.is_iri(xsd_string()) { assert(r =~= y); } else { assert(kind(b).len() > 0); }
    } else {
        match (a.ty, b.ty) {
            (TypeV::Any(i), TypeV::Any(j)) => {
                assert(l.skip(2) =~= iri_rdf(i) + x); assert(r.skip(2) =~= iri_rdf(j) + y);
                iri_reads_back(i, j, x, y);
            }
            (TypeV::Lang(i), TypeV::Lang(j)) => {
                assert(l.skip(1) =~= i + x); assert(r.skip(1) =~= j + y);
                cut(i, j, x, y, ' ');
            }
            _ => { assert(l[0] != r[0]); }
        }
    }
}
pub proof fn label_no_space(s: Seq<char>)
    requires label(s)
    ensures none_of(s, ' '), none_of(s, '\n'), none_of(s, '\r'), s[0] == '_'
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != ' ' && s[i] != '\n' && s[i] != '\r' by { if i >= 3 && i == s.len() - 1 { assert(s.last() == s[i]); } }
}
pub proof fn reads_back(a: LocalV, b: LocalV, x: Seq<char>, y: Seq<char>)
    requires a.legal(), b.legal(), ends(x), ends(y), a.rdf() + x == b.rdf() + y
    ensures a.same(b), x == y
{
    let l = a.rdf() + x; let r = b.rdf() + y;
    first(a); first(b);
    assert(l[0] == a.rdf()[0]); assert(r[0] == b.rdf()[0]);
    match (a, b) {
        (LocalV::Anon(i), LocalV::Anon(j)) => { label_no_space(i); label_no_space(j); cut(i, j, x, y, ' '); }
        (LocalV::Named(TermV::Iri(i)), LocalV::Named(TermV::Iri(j))) => { iri_reads_back(i, j, x, y); }
        (LocalV::Named(TermV::Lit(i)), LocalV::Named(TermV::Lit(j))) => {
            string_text(i.value); string_text(j.value);
            assert(l.skip(1) =~= body(i.value) + seq!['"'] + (kind(i) + x));
            assert(r.skip(1) =~= body(j.value) + seq!['"'] + (kind(j) + y));
            body_reads_back(i.value, j.value, kind(i) + x, kind(j) + y);
            kind_reads_back(i, j, x, y);
        }
        _ => { }
    }
}
proof fn first(a: LocalV)
    requires a.legal()
    ensures a.rdf().len() > 0, a.rdf()[0] == (match a { LocalV::Anon(_) => '_', LocalV::Named(TermV::Iri(_)) => '<', LocalV::Named(TermV::Lit(_)) => '"' })
{
    match a { LocalV::Anon(b) => { label_no_space(b); } LocalV::Named(TermV::Lit(l)) => { string_text(l.value); assert(l.rdf()[0] == string_rdf(l.value)[0]); } _ => { } }
}
// one line: no line break in it
pub open spec fn line_free(s: Seq<char>) -> bool { none_of(s, '\n') && none_of(s, '\r') }
proof fn body_one_line(s: Seq<char>)
    ensures line_free(body(s))
    decreases s.len()
{ if s.len() > 0 { body_step(s); body_one_line(s.skip(1)); } }
pub proof fn one_line(a: LocalV)
    requires a.legal()
    ensures line_free(a.rdf())
{
    match a {
        LocalV::Anon(b) => { label_no_space(b); }
        LocalV::Named(TermV::Lit(l)) => { string_text(l.value); body_one_line(l.value); assert(line_free(string_rdf(l.value))); assert(line_free(kind(l))); }
        _ => { }
    }
}
// statements: the text of a triple or quad
pub open spec fn statement(s: LocalV, p: LocalV, o: LocalV, g: Option<LocalV>) -> Seq<char> {
    s.rdf() + seq![' '] + p.rdf() + seq![' '] + o.rdf() + (match g { Some(g) => seq![' '] + g.rdf(), None => Seq::<char>::empty() })
}
pub proof fn statement_reads_back(a: (LocalV, LocalV, LocalV, Option<LocalV>), b: (LocalV, LocalV, LocalV, Option<LocalV>))
    requires a.0.legal(), a.1.legal(), a.2.legal(), a.3 matches Some(g) ==> g.legal(), b.0.legal(), b.1.legal(), b.2.legal(), b.3 matches Some(g) ==> g.legal(),
        statement(a.0, a.1, a.2, a.3) == statement(b.0, b.1, b.2, b.3)
    ensures a.0.same(b.0), a.1.same(b.1), a.2.same(b.2), match (a.3, b.3) { (Some(g), Some(h)) => g.same(h), (None, None) => true, _ => false }
{
    hide(LocalV::rdf); hide(LocalV::legal); hide(LocalV::same);
    let sp = seq![' ']; let e = Seq::<char>::empty();
    let ga = match a.3 { Some(g) => sp + g.rdf(), None => e }; let gb = match b.3 { Some(g) => sp + g.rdf(), None => e };
    let oa = sp + (a.2.rdf() + ga); let ob = sp + (b.2.rdf() + gb);
    let pa = sp + (a.1.rdf() + oa); let pb = sp + (b.1.rdf() + ob);
    assert(statement(a.0, a.1, a.2, a.3) =~= a.0.rdf() + pa); assert(statement(b.0, b.1, b.2, b.3) =~= b.0.rdf() + pb);
    reads_back(a.0, b.0, pa, pb);
    assert(pa.skip(1) =~= a.1.rdf() + oa); assert(pb.skip(1) =~= b.1.rdf() + ob);
    reads_back(a.1, b.1, oa, ob);
    assert(oa.skip(1) =~= a.2.rdf() + ga); assert(ob.skip(1) =~= b.2.rdf() + gb);
    reads_back(a.2, b.2, ga, gb);
    if a.3 is Some && b.3 is Some {
        let g = a.3->0; let h = b.3->0;
        assert(ga.skip(1) =~= g.rdf() + e); assert(gb.skip(1) =~= h.rdf() + e);
        reads_back(g, h, e, e);
    }
    assert(a.3 is Some ==> ga.len() > 0); assert(b.3 is Some ==> gb.len() > 0);
}
pub proof fn statement_one_line(a: (LocalV, LocalV, LocalV, Option<LocalV>))
    requires a.0.legal(), a.1.legal(), a.2.legal(), a.3 matches Some(g) ==> g.legal()
    ensures line_free(statement(a.0, a.1, a.2, a.3))
{
    hide(LocalV::rdf); hide(LocalV::legal);
    one_line(a.0); one_line(a.1); one_line(a.2); if a.3 is Some { one_line(a.3->0); }
}
