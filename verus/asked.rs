pub proof fn asked_laws<R>()
    ensures
        forall|s: Seq<&R>, v: Option<R>| s.len() == 0 ==> !#[trigger] asked(s, v),
        forall|s: Seq<&R>, v: Option<R>| #![trigger asked(s, v)] s.len() > 0 ==> asked(s, v) == (v == Some(*s[0]) || asked(s.skip(1), v)),
        forall|s: Seq<&R>, v: Option<R>| #![trigger asked(s.skip(1), v)] s.len() > 0 ==> asked(s, v) == (v == Some(*s[0]) || asked(s.skip(1), v)),
{
    assert forall|s: Seq<&R>, v: Option<R>| #![trigger asked(s, v)] #![trigger asked(s.skip(1), v)] s.len() > 0 implies asked(s, v) == (v == Some(*s[0]) || asked(s.skip(1), v)) by {
        let t = s.skip(1);
        if asked(s, v) { let x = choose|x: &R| #[trigger] s.contains(x) && v == Some(*x); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(t[i - 1] == x); assert(t.contains(x)); } }
        if asked(t, v) { let x = choose|x: &R| #[trigger] t.contains(x) && v == Some(*x); let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i + 1] == x); assert(s.contains(x)); }
        if v == Some(*s[0]) { assert(s.contains(s[0])); }
    }
}
