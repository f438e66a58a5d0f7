            spec fn gives_seq(items: Seq<Doc>, v: Self::Value) -> bool;
            spec fn takes_seq(items: Seq<Doc>) -> bool;
            fn visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<Self::Value, A::Error>)
                ensures r matches Ok(v) ==> Self::gives_seq(seq.rest(), v), seq.faithful() && Self::takes_seq(seq.rest()) ==> r is Ok;
