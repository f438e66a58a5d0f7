// Option::expect, which panics on None: it returns only the value
pub trait Expect<T>: Sized {
    spec fn is(self, t: T) -> bool;
    fn or_panic(self, m: &str) -> (r: T) ensures self.is(r);
}
impl<T> Expect<T> for Option<T> {
    open spec fn is(self, t: T) -> bool { self == Some(t) }
    #[verifier::external_body]
    fn or_panic(self, m: &str) -> (r: T) { self.expect(m) }
}
//@item term/generator/blank.rs | Blank
impl Blank {
    // what the generator will return: the identifiers numbered from count on
    pub open spec fn upcoming(&self, i: nat) -> Seq<char> { numbered_id(self.prefix@, (self.count + i) as nat) }
//@fn term/generator/blank.rs | impl Blank | new_full
//@  ret r
//@  spec ensures r.prefix@ == $0@, r.count == $1
//@end
//@fn term/generator/blank.rs | impl Blank | new_with_prefix
//@  ret r
//@  spec ensures r.prefix@ == $0@, r.count == 0
//@end
//@fn term/generator/blank.rs | impl Blank | new_with_offset
//@  ret r
//@  spec ensures r.prefix@.len() == 0, r.count == $0
//@end
//@fn term/generator/blank.rs | impl Blank | new
//@  ret r
//@  spec ensures r.prefix@.len() == 0, r.count == 0
//@end
//@fn term/generator/blank.rs | impl Blank | prefix
//@  ret r
//@  spec ensures r@ == self.prefix@
//@end
//@fn term/generator/blank.rs | impl Blank | count
//@  ret r
//@  spec ensures r == self.count
//@end
//@fn term/generator/blank.rs | impl Blank | next_blank_id
//@  ret r
//@  subst `expect` => `or_panic`
//@  spec requires legal(old(self).prefix@)
//@|   ensures label(r@), r@ == numbered_id(old(self).prefix@, old(self).count as nat),
//@|     final(self).prefix@ == old(self).prefix@, final(self).count == old(self).count + 1
//@  proof reveal_strlit("_:"); numbered(self.prefix@, self.count as nat);
//@end
// (LocalGenerator for Blank)
//@fn term/generator/blank.rs | impl LocalGenerator for Blank | next_local_term
//@  ret r
//@  spec requires legal(old(self).prefix@)
//@|   ensures r matches LocalTerm::Anonymous(b) && b@ == numbered_id(old(self).prefix@, old(self).count as nat) && label(b@),
//@|     final(self).prefix@ == old(self).prefix@, final(self).count == old(self).count + 1
//@end
}
//@item term/local/mod.rs | LocalTerm | `Term` => `()`
