pub broadcast proof fn cat3(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn cat1(a: Seq<char>, c: char)
    ensures #[trigger] a.push(c) == a + seq![c]
{ assert(a.push(c) =~= a + seq![c]); }
pub broadcast proof fn cat0(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{ assert(a + Seq::<char>::empty() =~= a); }
//@always broadcast use {cat3, cat1, cat0};
