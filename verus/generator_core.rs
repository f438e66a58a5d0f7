// ---- numbered generator
// a prefix that makes valid identifiers (grammar of what stands between the mark and the numeral)
pub open spec fn legal(p: Seq<char>) -> bool {
    p.len() > 0 ==> (pn_chars_u(p[0]) || digit(p[0])) && forall|i: int| 1 <= i < p.len() ==> pn_chars(#[trigger] p[i]) || p[i] == '.'
}
pub open spec fn numbered_id(p: Seq<char>, n: nat) -> Seq<char> { "_:"@ + p + decimal(n) }
pub proof fn numbered(p: Seq<char>, n: nat)
    requires legal(p)
    ensures label(numbered_id(p, n))
{
    reveal_strlit("_:");
    decimal_digits(n);
    let s = numbered_id(p, n);
    let k = 2 + p.len();
    assert forall|i: int| k <= i < s.len() implies digit(#[trigger] s[i]) by { assert(s[i] == decimal(n)[i - k]); }
    assert forall|i: int| 2 <= i < k implies s[i] == p[i - 2] by { }
    assert(s.last() == decimal(n).last());
}
// legal is no stronger than needed: a prefix that makes one valid identifier makes only valid ones
pub proof fn legal_prefix(p: Seq<char>, n: nat)
    requires label(numbered_id(p, n))
    ensures legal(p)
{
    reveal_strlit("_:");
    decimal_digits(n);
    let s = numbered_id(p, n);
    assert forall|i: int| 2 <= i < 2 + p.len() implies #[trigger] s[i] == p[i - 2] by { }
    assert forall|i: int| 1 <= i < p.len() implies pn_chars(#[trigger] p[i]) || p[i] == '.' by { assert(s[i + 2] == p[i]); }
    if p.len() > 0 { assert(s[2] == p[0]); }
}
// one generator, two calls: another identifier (distinct numbers give distinct identifiers)
pub proof fn never_repeats(p: Seq<char>, a: nat, b: nat)
    requires numbered_id(p, a) == numbered_id(p, b)
    ensures a == b
{
    let k = ("_:"@ + p).len() as int;
    assert(numbered_id(p, a).skip(k) =~= decimal(a));
    assert(numbered_id(p, b).skip(k) =~= decimal(b));
    decimal_injective(a, b);
}
