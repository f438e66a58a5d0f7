            spec fn gives_str(s: Seq<char>, v: Self::Value) -> bool;
            spec fn takes_str(s: Seq<char>) -> bool;
            fn visit_string<E: Error>(self, v: String) -> (r: Result<Self::Value, E>)
                ensures r matches Ok(x) ==> Self::gives_str(v@, x), Self::takes_str(v@) ==> r is Ok;
            fn visit_str<E: Error>(self, v: &str) -> (r: Result<Self::Value, E>)
                ensures r matches Ok(x) ==> Self::gives_str(v@, x), Self::takes_str(v@) ==> r is Ok;
            fn visit_borrowed_str<E: Error>(self, v: &'de str) -> (r: Result<Self::Value, E>)
                ensures r matches Ok(x) ==> Self::gives_str(v@, x), Self::takes_str(v@) ==> r is Ok;
