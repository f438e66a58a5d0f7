// ---- the documented grammar
pub open spec fn within(c: char, a: char, b: char) -> bool { a <= c && c <= b }
pub open spec fn pn_chars_base(c: char) -> bool {
    within(c, 'A', 'Z') || within(c, 'a', 'z') || within(c, '\u{C0}', '\u{D6}') || within(c, '\u{D8}', '\u{F6}')
    || within(c, '\u{F8}', '\u{2FF}') || within(c, '\u{370}', '\u{37D}') || within(c, '\u{37F}', '\u{1FFF}')
    || within(c, '\u{200C}', '\u{200D}') || within(c, '\u{2070}', '\u{218F}') || within(c, '\u{2C00}', '\u{2FEF}')
    || within(c, '\u{3001}', '\u{D7FF}') || within(c, '\u{F900}', '\u{FDCF}') || within(c, '\u{FDF0}', '\u{FFFD}')
    || within(c, '\u{10000}', '\u{EFFFF}')
}
pub open spec fn pn_chars_u(c: char) -> bool { pn_chars_base(c) || c == '_' || c == ':' }
pub open spec fn pn_chars(c: char) -> bool {
    pn_chars_u(c) || c == '-' || digit(c) || c == '\u{B7}' || within(c, '\u{300}', '\u{36F}') || within(c, '\u{203F}', '\u{2040}')
}
// BLANK_NODE_LABEL ::= '_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?
pub open spec fn label(s: Seq<char>) -> bool {
    &&& s.len() >= 3 && s[0] == '_' && s[1] == ':'
    &&& pn_chars_u(s[2]) || digit(s[2])
    &&& s.len() > 3 ==> pn_chars(s.last())
    &&& forall|i: int| 3 <= i < s.len() - 1 ==> pn_chars(#[trigger] s[i]) || s[i] == '.'
}
