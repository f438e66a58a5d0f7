//@include label.rs
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == digit(*c);
// str slicing: what vstd says of SliceIndex::index holds of Index::index, which calls it
pub assume_specification<I> [<str as std::ops::Index<I>>::index] (s: &str, i: I) -> (r: &<I as std::slice::SliceIndex<str>>::Output)
    where I: std::slice::SliceIndex<str>,
    ensures i.index_postcondition(s, r);
// the first two characters take two bytes
pub proof fn mark_bytes(s: Seq<char>)
    requires s.len() >= 2, s[0] == '_', s[1] == ':'
    ensures encode_utf8(s).subrange(2, encode_utf8(s).len() as int) == encode_utf8(s.skip(2)), encode_utf8(s).len() >= 2,
        is_char_boundary(encode_utf8(s), 2), is_char_boundary(encode_utf8(s), encode_utf8(s).len() as int)
{
    let a = s.take(2);
    let b = s.skip(2);
    assert(s =~= a + b);
    encode_utf8_concat(a, b);
    is_ascii_chars_encode_utf8(a);
    let e = encode_utf8(s);
    assert(e =~= encode_utf8(a) + encode_utf8(b));
    assert(e.subrange(2, e.len() as int) =~= encode_utf8(b));
    encode_utf8_valid_utf8(s);
    is_char_boundary_start_end_of_seq(e);
    let c = s.skip(1);
    encode_utf8_first_scalar(s);
    encode_utf8_first_scalar(c);
    encode_utf8_valid_utf8(c);
    encode_utf8_valid_utf8(b);
    assert(c.skip(1) =~= b);
    is_char_boundary_start_end_of_seq(encode_utf8(b));
    reveal_with_fuel(is_char_boundary, 3);
    reveal_with_fuel(encode_utf8, 3);
    assert(pop_first_scalar(e) =~= encode_utf8(c));
    assert(pop_first_scalar(encode_utf8(c)) =~= encode_utf8(b));
}
// equal bytes, equal text
pub proof fn same_bytes(s: Seq<char>)
    ensures forall|x: &str| #[trigger] x.spec_bytes() == encode_utf8(s) ==> x@ == s
{
    broadcast use vstd::string::group_string_axioms;
    assert forall|x: &str| #[trigger] x.spec_bytes() == encode_utf8(s) implies x@ == s by {
        encode_utf8_decode_utf8(x@);
        encode_utf8_decode_utf8(s);
    }
}
//@include generator_core.rs
#[verifier::prophetic]
pub open spec fn remaining<C: Iterator<Item = char>>(c: C) -> Seq<char> { IteratorSpec::remaining(&c) }
#[verifier::prophetic]
pub open spec fn lawful<C: Iterator<Item = char>>(c: C) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&c) }

// what is left of all is what follows its first k characters
pub open spec fn at_k(all: Seq<char>, rest: Seq<char>) -> int { all.len() - rest.len() }
pub open spec fn at(all: Seq<char>, rest: Seq<char>) -> bool {
    &&& 3 <= at_k(all, rest) <= all.len() && rest =~= all.skip(at_k(all, rest))
    &&& all[0] == '_' && all[1] == ':' && (pn_chars_u(all[2]) || digit(all[2]))
}
//@fn blankid.rs | | is_pn_char_base
//@  ret r
//@  spec ensures r == pn_chars_base($0)
//@end
//@fn blankid.rs | | is_pn_char_u
//@  ret r
//@  spec ensures r == pn_chars_u($0)
//@end
//@fn blankid.rs | | is_pn_char
//@  ret r
//@  spec ensures r == pn_chars($0)
//@end
//@fn blankid.rs | | check
//@  ret r
//@  spec requires lawful($0)
//@|   ensures r == label(remaining($0))
//@  ghost all = remaining($0)
//@  attr #[verifier::exec_allows_no_decreases_clause]
//@  loop 0 invariant lawful(__it0), at(all, remaining(__it0)), all[at_k(all, remaining(__it0)) - 1] == last,
//@|     forall|i: int| 3 <= i < at_k(all, remaining(__it0)) ==> pn_chars(#[trigger] all[i]) || all[i] == '.'
//@end

pub struct InvalidBlankId<T>(pub T);
//@item blankid.rs | BlankId
//@item blankid.rs | BlankIdBuf
impl BlankId {
    pub open spec fn view(&self) -> Seq<char> { self.0@ }
//@fn blankid.rs | impl BlankId | new_unchecked
//@  ret r
//@  subst? `std::mem::transmute` => `transmuted_ref`
//@  spec requires label($0@)
//@|   ensures r@ == $0@
//@end
//@fn blankid.rs | impl BlankId | new
//@  ret r
//@  spec ensures label($0@) ==> r is Ok && r->Ok_0@ == $0@, !label($0@) ==> r is Err && r->Err_0.0@ == $0@
//@end
//@fn blankid.rs | impl BlankId | as_str
//@  ret r
//@  spec ensures r@ == self@
//@end
//@fn blankid.rs | impl BlankId | suffix
//@  ret r
//@  spec requires label(self@)
//@|   ensures r@ == self@.skip(2)
//@  proof broadcast use vstd::string::group_string_axioms; mark_bytes(self@); same_bytes(self@.skip(2));
//@end
//@fn blankid.rs | impl ToOwned for BlankId | to_owned
//@  ret r
//@  spec requires label(self@)
//@|   ensures r@ == self@
//@end
// views of the text
//@fn blankid.rs | impl AsRef<str> for BlankId | as_ref
//@  as as_ref_str
//@  ret r
//@  spec ensures r@ == self@
//@end
//@fn blankid.rs | impl AsRef<[u8]> for BlankId | as_ref
//@  as as_ref_bytes
//@  ret r
//@  spec ensures r@ == encode_utf8(self@)
//@  proof broadcast use vstd::string::group_string_axioms;
//@end
//@fn blankid.rs | impl Borrow<str> for BlankId | borrow
//@  as borrow_str
//@  ret r
//@  spec ensures r@ == self@
//@end
}
impl std::ops::Deref for BlankId {
    type Target = str;
//@fn blankid.rs | impl Deref for BlankId | deref
//@  bare
//@  ret r
//@  spec ensures r@ == self@
//@end
}
// std::mem::transmute between a transparent wrapper and what it wraps: unsafe, assumed to keep the text
#[verifier::external_body]
pub fn transmuted_ref<'x>(s: &'x str) -> (r: &'x BlankId) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn transmuted(s: String) -> (r: BlankIdBuf) ensures r@ == s@ { unimplemented!() }
impl BlankIdBuf {
    pub open spec fn view(&self) -> Seq<char> { self.0@ }
//@fn blankid.rs | impl BlankIdBuf | new_unchecked
//@  ret r
//@  subst? `std::mem::transmute` => `transmuted`
//@  spec requires label($0@)
//@|   ensures r@ == $0@
//@end
//@fn blankid.rs | impl BlankIdBuf | new
//@  ret r
//@  spec ensures label($0@) ==> r is Ok && r->Ok_0@ == $0@, !label($0@) ==> r is Err && r->Err_0.0@ == $0@
//@end
//@fn blankid.rs | impl BlankIdBuf | from_suffix
//@  ret r
//@  spec ensures label("_:"@ + $0@) ==> r is Ok && r->Ok_0@ == "_:"@ + $0@, !label("_:"@ + $0@) ==> r is Err && r->Err_0.0@ == "_:"@ + $0@
//@end
//@fn blankid.rs | impl FromStr for BlankIdBuf | from_str
//@  ret r
//@  spec ensures label($0@) ==> r is Ok && r->Ok_0@ == $0@, !label($0@) ==> r is Err && r->Err_0.0@ == $0@
//@end
//@fn blankid.rs | impl BlankIdBuf | as_blank_id_ref
//@  ret r
//@  spec requires label(self@)
//@|   ensures r@ == self@
//@end
//@fn blankid.rs | impl BlankIdBuf | from_u8
//@  ret r
//@  spec ensures label(r@), r@ == "_:"@ + decimal($0 as nat)
//@  proof numbered(Seq::empty(), $0 as nat); assert("_:"@ + Seq::<char>::empty() =~= "_:"@);
//@end
//@fn blankid.rs | impl BlankIdBuf | from_u16
//@  ret r
//@  spec ensures label(r@), r@ == "_:"@ + decimal($0 as nat)
//@  proof numbered(Seq::empty(), $0 as nat); assert("_:"@ + Seq::<char>::empty() =~= "_:"@);
//@end
//@fn blankid.rs | impl BlankIdBuf | from_u32
//@  ret r
//@  spec ensures label(r@), r@ == "_:"@ + decimal($0 as nat)
//@  proof numbered(Seq::empty(), $0 as nat); assert("_:"@ + Seq::<char>::empty() =~= "_:"@);
//@end
//@fn blankid.rs | impl BlankIdBuf | from_u64
//@  ret r
//@  spec ensures label(r@), r@ == "_:"@ + decimal($0 as nat)
//@  proof numbered(Seq::empty(), $0 as nat); assert("_:"@ + Seq::<char>::empty() =~= "_:"@);
//@end
}
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
impl BlankIdBuf {
// views of the text
//@fn blankid.rs | impl Deref for BlankIdBuf | deref
//@  as deref_blank_id
//@  ret r
//@  spec requires label(self@) ensures r@ == self@
//@end
//@fn blankid.rs | impl AsRef<BlankId> for BlankIdBuf | as_ref
//@  as as_ref_blank_id
//@  ret r
//@  spec requires label(self@) ensures r@ == self@
//@end
//@fn blankid.rs | impl Borrow<BlankId> for BlankIdBuf | borrow
//@  as borrow_blank_id
//@  ret r
//@  spec requires label(self@) ensures r@ == self@
//@end
//@fn blankid.rs | impl AsRef<str> for BlankIdBuf | as_ref
//@  as as_ref_str
//@  ret r
//@  spec ensures r@ == self@
//@end
//@fn blankid.rs | impl Borrow<str> for BlankIdBuf | borrow
//@  as borrow_str
//@  ret r
//@  spec ensures r@ == self@
//@end
//@fn blankid.rs | impl AsRef<[u8]> for BlankIdBuf | as_ref
//@  as as_ref_bytes
//@  ret r
//@  spec ensures r@ == encode_utf8(self@)
//@  proof broadcast use vstd::string::group_string_axioms;
//@end
}
impl BlankIdBuf {
//@fn blankid.rs | impl Borrow<BlankId> for &BlankIdBuf | borrow
//@  as borrow_ref_blank_id
//@  ret r
//@  spec requires label(self@) ensures r@ == self@
//@end
}
impl BlankIdBuf {
//@fn blankid.rs | impl Borrow<str> for &BlankIdBuf | borrow
//@  as borrow_ref_str
//@  ret r
//@  spec ensures r@ == self@
//@end
}
pub struct Viewed<'a>(&'a ());
impl<'a> Viewed<'a> {
//@fn blankid.rs | impl<'a> From<&'a BlankIdBuf> for &'a BlankId | from
//@  as from_blank_id_buf
//@  ret r
//@  subst? `as_ref` => `as_ref_blank_id`
//@  subst? `Self` => `&'a BlankId`
//@  spec requires label($0@) ensures r@ == $0@
//@end
}
