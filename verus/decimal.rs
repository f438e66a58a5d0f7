// ---- decimal numerals
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digit_char(d: nat) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
pub open spec fn decimal(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit_char(n)] } else { decimal(n / 10).push(digit_char(n % 10)) }
}
pub proof fn decimal_digits(n: nat)
    ensures decimal(n).len() >= 1, forall|i: int| 0 <= i < decimal(n).len() ==> digit(#[trigger] decimal(n)[i])
    decreases n
{
    if n >= 10 { decimal_digits(n / 10); }
}
pub proof fn decimal_injective(a: nat, b: nat)
    requires decimal(a) == decimal(b)
    ensures a == b
    decreases a
{
    decimal_digits(a / 10); decimal_digits(b / 10);
    assert(decimal(a).last() == digit_char(a % 10));
    assert(decimal(b).last() == digit_char(b % 10));
    assert(a % 10 == b % 10);
    if a >= 10 {
        assert(b >= 10) by { if b < 10 { assert(decimal(b).len() == 1); } }
        assert(decimal(a).drop_last() =~= decimal(a / 10));
        assert(decimal(b).drop_last() =~= decimal(b / 10));
        decimal_injective(a / 10, b / 10);
    } else {
        assert(b < 10) by { if b >= 10 { assert(decimal(a).len() == 1); } }
    }
}
