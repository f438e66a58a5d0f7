        fn deserialize_string<V: de::Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
            ensures r matches Ok(v) ==> self.doc() is Str && V::gives_str(self.doc()->Str_0, v),
                self.faithful() && self.doc() is Str && V::takes_str(self.doc()->Str_0) ==> r is Ok;
        fn deserialize_str<V: de::Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
            ensures r matches Ok(v) ==> self.doc() is Str && V::gives_str(self.doc()->Str_0, v),
                self.faithful() && self.doc() is Str && V::takes_str(self.doc()->Str_0) ==> r is Ok;
