// ---- serde: its data model, and contracts on its traits. A value's `doc` is what serialising it hands the
// format; `reads` says which values reading a document can give, `readable` for which documents reading succeeds.
// A writer that is `sound` never fails; an input that is `faithful` gives back the documents that were written
// and fails only where the value being read has no use for them.
pub enum Doc {
    Str(Seq<char>), Null, Some(Box<Doc>), Unit, Newtype(Box<Doc>), Seq(Seq<Doc>), Tuple(Seq<Doc>), Fields(Seq<(Seq<char>, Doc)>), Variant(Seq<char>, Box<Doc>), Case(Seq<char>),
}
pub mod serde {
    use super::*;
    // (valid: what the type keeps true of its values, as far as reading them back needs it)
    pub trait Serialize { spec fn doc(&self) -> Doc; spec fn valid(&self) -> bool; }
    impl<T: Serialize + ?Sized> Serialize for &T { open spec fn doc(&self) -> Doc { (**self).doc() } open spec fn valid(&self) -> bool { (**self).valid() } }
    impl<T: Serialize> Serialize for Option<T> { open spec fn doc(&self) -> Doc { match self { Some(x) => Doc::Some(Box::new(x.doc())), None => Doc::Null } } open spec fn valid(&self) -> bool { match self { Some(x) => x.valid(), None => true } } }
    pub trait Deserialize<'de>: Sized {
        spec fn reads(d: Doc, v: Self) -> bool;
        spec fn readable(d: Doc) -> bool;
    }
    impl<'de, T: Deserialize<'de>> Deserialize<'de> for Option<T> {
        open spec fn reads(d: Doc, v: Self) -> bool { match d { Doc::Null => v is None, Doc::Some(x) => v is Some && T::reads(*x, v->0), _ => false } }
        open spec fn readable(d: Doc) -> bool { match d { Doc::Null => true, Doc::Some(x) => T::readable(*x), _ => false } }
    }
    pub trait Serializer: Sized {
        type Ok;
        type Error;
        type SerializeSeq: ser::SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
        spec fn sound(&self) -> bool;
        fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
            ensures r matches Ok(s) ==> ser::SerializeSeq::items(&s) == Seq::<Doc>::empty() && ser::SerializeSeq::hint(&s) == len && (self.sound() ==> ser::SerializeSeq::sound(&s)),
                self.sound() ==> r is Ok;
    }
    pub mod ser {
        use super::super::*;
        pub trait SerializeSeq: Sized {
            type Ok;
            type Error;
            spec fn items(&self) -> Seq<Doc>;
            spec fn hint(&self) -> Option<usize>;
            spec fn sound(&self) -> bool;
            spec fn wrote(o: Self::Ok, d: Doc) -> bool;
            fn serialize_element<T: super::Serialize + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
                ensures r is Ok ==> final(self).items() == old(self).items().push(value.doc()), final(self).hint() == old(self).hint(),
                    old(self).sound() ==> r is Ok && final(self).sound();
            fn end(self) -> (r: Result<Self::Ok, Self::Error>)
                requires self.hint() matches Some(n) ==> n == self.items().len()
                ensures r matches Ok(o) ==> Self::wrote(o, Doc::Seq(self.items())), self.sound() ==> r is Ok;
        }
    }
    pub mod de {
        use super::super::*;
        pub trait SeqAccess<'de>: Sized {
            type Error;
            spec fn rest(&self) -> Seq<Doc>;
            spec fn faithful(&self) -> bool;
            fn next_element<T: super::Deserialize<'de>>(&mut self) -> (r: Result<Option<T>, Self::Error>)
                ensures final(self).faithful() == old(self).faithful(),
                    match r {
                        Ok(Some(v)) => old(self).rest().len() > 0 && T::reads(old(self).rest()[0], v) && final(self).rest() == old(self).rest().skip(1),
                        Ok(None) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                        Err(_) => old(self).faithful() ==> old(self).rest().len() > 0 && !T::readable(old(self).rest()[0]),
                    };
        }
        pub enum Unexpected<'a> { Str(&'a str) }
        pub trait Error: Sized { fn invalid_value<V>(unexp: Unexpected<'_>, exp: &V) -> Self; }
        pub trait Visitor<'de>: Sized {
            type Value;
//@include serde_visit_@KIND@.rs
        }
    }
    pub trait Deserializer<'de>: Sized {
        type Error;
        spec fn doc(&self) -> Doc;
        spec fn faithful(&self) -> bool;
//@include serde_ask_@KIND@.rs
    }
}
// reading back what was written gives an equal value
pub open spec fn round<'de, R: serde::Serialize + serde::Deserialize<'de>>() -> bool {
    forall|a: R| serde::Serialize::valid(&a) ==> R::readable(#[trigger] serde::Serialize::doc(&a)) && forall|b: R| #[trigger] R::reads(serde::Serialize::doc(&a), b) ==> a == b
}
