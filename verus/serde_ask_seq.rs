        fn deserialize_seq<V: de::Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
            ensures r matches Ok(v) ==> self.doc() is Seq && V::gives_seq(self.doc()->Seq_0, v),
                self.faithful() && self.doc() is Seq && V::takes_seq(self.doc()->Seq_0) ==> r is Ok;
