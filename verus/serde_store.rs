use serde::ser::SerializeSeq;
// ---- writing a store: its statements, in the order it lists them; reading one: the set of the statements read
pub open spec fn docs<R: serde::Serialize>(l: Seq<@T@<R>>) -> Seq<Doc> { l.map_values(|t: @T@<R>| serde::Serialize::doc(&t)) }
pub open spec fn docd<R: serde::Serialize>(t: @T@<R>) -> Doc { serde::Serialize::doc(&t) }
pub open spec fn read_as<'de, R: serde::Deserialize<'de>>(items: Seq<Doc>, ts: Seq<@T@<R>>) -> bool {
    ts.len() == items.len() && forall|i: int| 0 <= i < ts.len() ==> <@T@<R> as serde::Deserialize<'de>>::reads(#[trigger] items[i], ts[i])
}
pub open spec fn all_readable<'de, R: serde::Deserialize<'de>>(items: Seq<Doc>) -> bool {
    forall|i: int| 0 <= i < items.len() ==> <@T@<R> as serde::Deserialize<'de>>::readable(#[trigger] items[i])
}
impl<R: Ord> @S@<R> {
    pub open spec fn holds_only(&self, ts: Seq<@T@<R>>) -> bool { forall|u: @T@<R>| #[trigger] self.has(u) <==> ts.contains(u) }
}
// g holds what was read from the documents of all before rest
#[verifier::opaque]
pub open spec fn so_far<'de, R: Ord + serde::Deserialize<'de>>(all: Seq<Doc>, rest: Seq<Doc>, g: @S@<R>) -> bool {
    rest.len() <= all.len() && rest == all.skip(all.len() - rest.len()) && store_read(all.take(all.len() - rest.len()), g)
}
pub open spec fn reads_one<'de, R: serde::Deserialize<'de>>(d: Doc, v: @T@<R>) -> bool { <@T@<R> as serde::Deserialize<'de>>::reads(d, v) }
pub proof fn so_far_laws<'de, R: Ord + serde::Deserialize<'de>>()
    ensures
        forall|g: @S@<R>| #[trigger] g.clear() ==> g.wf() && forall|u: @T@<R>| !#[trigger] g.has(u),
        forall|all: Seq<Doc>, g: @S@<R>| g.wf() && (forall|u: @T@<R>| !#[trigger] g.has(u)) ==> #[trigger] so_far(all, all, g),
        forall|all: Seq<Doc>, rest: Seq<Doc>, g: @S@<R>| #[trigger] so_far(all, rest, g) && rest.len() == 0 ==> store_read(all, g),
        forall|all: Seq<Doc>, r0: Seq<Doc>, r1: Seq<Doc>, g0: @S@<R>, g1: @S@<R>, v: @T@<R>| #![trigger so_far(all, r0, g0), so_far(all, r1, g1), serde::Deserialize::reads(r0[0], v)]
            so_far(all, r0, g0) && r0.len() > 0 && r1 == r0.skip(1) && <@T@<R> as serde::Deserialize<'de>>::reads(r0[0], v) && g1.wf() && (forall|u: @T@<R>| #[trigger] g1.has(u) <==> g0.has(u) || u == v)
            ==> so_far(all, r1, g1),
        forall|all: Seq<Doc>, rest: Seq<Doc>, g: @S@<R>| #[trigger] so_far(all, rest, g) && rest.len() > 0 && all_readable::<R>(all) ==> <@T@<R> as serde::Deserialize<'de>>::readable(rest[0])
{
    reveal(so_far);
    assert forall|g: @S@<R>| #[trigger] g.clear() implies g.wf() && forall|u: @T@<R>| !#[trigger] g.has(u) by { g.clear_wf(); }
    assert forall|all: Seq<Doc>, g: @S@<R>| g.wf() && (forall|u: @T@<R>| !#[trigger] g.has(u)) implies #[trigger] so_far(all, all, g) by {
        assert(all.skip(0) =~= all);
        let ts = Seq::<@T@<R>>::empty();
        assert(read_as(all.take(0), ts) && g.holds_only(ts));
    }
    assert forall|all: Seq<Doc>, rest: Seq<Doc>, g: @S@<R>| #[trigger] so_far(all, rest, g) && rest.len() == 0 implies store_read(all, g) by {
        assert(all.take(all.len() as int) =~= all);
    }
    assert forall|all: Seq<Doc>, r0: Seq<Doc>, r1: Seq<Doc>, g0: @S@<R>, g1: @S@<R>, v: @T@<R>| #![trigger so_far(all, r0, g0), so_far(all, r1, g1), serde::Deserialize::reads(r0[0], v)]
            so_far(all, r0, g0) && r0.len() > 0 && r1 == r0.skip(1) && <@T@<R> as serde::Deserialize<'de>>::reads(r0[0], v) && g1.wf() && (forall|u: @T@<R>| #[trigger] g1.has(u) <==> g0.has(u) || u == v)
            implies so_far(all, r1, g1) by {
        let k = all.len() - r0.len();
        assert(r0[0] == all[k]);
        assert(r1 =~= all.skip(k + 1));
        let ts = choose|ts: Seq<@T@<R>>| #[trigger] read_as(all.take(k), ts) && g0.holds_only(ts);
        let us = ts.push(v);
        let items = all.take(k + 1);
        assert(us.len() == items.len());
        assert forall|i: int| 0 <= i < us.len() implies <@T@<R> as serde::Deserialize<'de>>::reads(#[trigger] items[i], us[i]) by {
            if i < k { assert(items[i] == all.take(k)[i]); assert(us[i] == ts[i]); } else { assert(items[i] == r0[0]); assert(us[i] == v); }
        }
        assert(read_as(items, us));
        assert forall|u: @T@<R>| #[trigger] g1.has(u) <==> us.contains(u) by {
            assert(g0.has(u) <==> ts.contains(u));
            if ts.contains(u) { let j = choose|j: int| 0 <= j < ts.len() && ts[j] == u; assert(us[j] == u); }
            if u == v { assert(us[k] == u); }
            if us.contains(u) { let j = choose|j: int| 0 <= j < us.len() && us[j] == u; if j < k { assert(ts[j] == u); } }
        }
        assert(g1.holds_only(us));
    }
    assert forall|all: Seq<Doc>, rest: Seq<Doc>, g: @S@<R>| #[trigger] so_far(all, rest, g) && rest.len() > 0 && all_readable::<R>(all) implies <@T@<R> as serde::Deserialize<'de>>::readable(rest[0]) by {
        let k = all.len() - rest.len();
        assert(rest[0] == all[k]);
    }
}
// ---- C23: what reading a store's document gives holds exactly the statements the store holds, and reading it succeeds
pub proof fn store_round<'de, R: Ord + serde::Serialize + serde::Deserialize<'de>>(g: @S@<R>, h: @S@<R>)
    requires serde::Serialize::valid(&g), round::<R>(), <@S@<R> as serde::Deserialize<'de>>::reads(serde::Serialize::doc(&g), h)
    ensures h.wf(), forall|u: @T@<R>| #[trigger] h.has(u) <==> g.has(u)
{
    g.listed();
    let items = docs(g.list());
    let ts = choose|ts: Seq<@T@<R>>| #[trigger] read_as(items, ts) && h.holds_only(ts);
    assert forall|i: int| 0 <= i < ts.len() implies ts[i] == #[trigger] g.list()[i] by {
        assert(items[i] == docd(g.list()[i]));
        assert(g.list().contains(g.list()[i])); assert(g.has(g.list()[i]));
        statement_round(g.list()[i], ts[i]);
    }
    assert(ts =~= g.list());
}
pub proof fn store_reads<'de, R: Ord + serde::Serialize + serde::Deserialize<'de>>(g: @S@<R>)
    requires serde::Serialize::valid(&g), round::<R>()
    ensures <@S@<R> as serde::Deserialize<'de>>::readable(serde::Serialize::doc(&g))
{
    let items = docs(g.list());
    g.listed();
    assert forall|i: int| 0 <= i < items.len() implies <@T@<R> as serde::Deserialize<'de>>::readable(#[trigger] items[i]) by {
        assert(items[i] == docd(g.list()[i]));
        assert(g.list().contains(g.list()[i])); assert(g.has(g.list()[i]));
        statement_reads(g.list()[i]);
    }
}
pub proof fn statement_round<'de, R: serde::Serialize + serde::Deserialize<'de>>(a: @T@<R>, b: @T@<R>)
    requires serde::Serialize::valid(&a), round::<R>(), <@T@<R> as serde::Deserialize<'de>>::reads(docd(a), b)
    ensures a == b
{}
pub proof fn statement_reads<'de, R: serde::Serialize + serde::Deserialize<'de>>(a: @T@<R>)
    requires serde::Serialize::valid(&a), round::<R>()
    ensures <@T@<R> as serde::Deserialize<'de>>::readable(docd(a))
{}
impl<R: Ord + serde::Serialize> serde::Serialize for @S@<R> {
    open spec fn doc(&self) -> Doc { Doc::Seq(docs(self.list())) }
    open spec fn valid(&self) -> bool { self.wf() && forall|u: @T@<R>| #[trigger] self.has(u) ==> serde::Serialize::valid(&u) }
}
pub open spec fn store_read<'de, R: Ord + serde::Deserialize<'de>>(items: Seq<Doc>, g: @S@<R>) -> bool {
    g.wf() && exists|ts: Seq<@T@<R>>| #[trigger] read_as(items, ts) && g.holds_only(ts)
}
impl<'de, R: Ord + serde::Deserialize<'de>> serde::Deserialize<'de> for @S@<R> {
    open spec fn reads(d: Doc, v: Self) -> bool { d is Seq && store_read(d->Seq_0, v) }
    open spec fn readable(d: Doc) -> bool { d is Seq && all_readable::<R>(d->Seq_0) }
}
impl<R: Ord + serde::Serialize> @S@<R> {
//@fn @F@ | impl<R: serde::Serialize> serde::Serialize for @S@<R> | serialize
//@ ret r
//@ subst? `use serde::ser::SerializeSeq;` => ``
//@ into 0 Self::ref_into_iter
//@ loop 0 invariant __it0.ok(), serde::ser::SerializeSeq::items(&%0) + docs(__it0.rest()) == docs(self.list()), serde::ser::SerializeSeq::hint(&%0) matches Some(n) ==> n == self.list().len(), $1.sound() ==> serde::ser::SerializeSeq::sound(&%0)
//@| decreases __it0.rest().len()
//@ spec requires self.wf()
//@| ensures r matches Ok(o) ==> <S::SerializeSeq as serde::ser::SerializeSeq>::wrote(o, serde::Serialize::doc(self)), $1.sound() ==> r is Ok
//@ proof self.listed();
//@end
}
//@item @F@ | Visitor | `std::marker::PhantomData` => `PhantomData`
impl<'de, R: Clone + Ord + serde::Deserialize<'de>> serde::de::Visitor<'de> for Visitor<R> {
    type Value = @S@<R>;
    open spec fn gives_seq(items: Seq<Doc>, v: @S@<R>) -> bool { store_read(items, v) }
    open spec fn takes_seq(items: Seq<Doc>) -> bool { all_readable::<R>(items) }
//@fn @F@ | impl<'de, R: Clone + Ord + serde::Deserialize<'de>> serde::de::Visitor<'de> for Visitor<R> | visit_seq
//@ bare
//@ ret r
//@ ghost all = $1.rest()
//@ ghost sure = $1.faithful()
//@ loop 0 invariant %0.wf(), so_far(all, $1.rest(), %0), $1.faithful() == sure
//@| decreases $1.rest().len()
//@ proof so_far_laws::<R>();
//@end
}
impl<'de, R: Clone + Ord + serde::Deserialize<'de>> @S@<R> {
//@fn @F@ | impl<'de, R: Clone + Ord + serde::Deserialize<'de>> serde::Deserialize<'de> for @S@<R> | deserialize
//@ ret r
//@ subst? `std::marker::PhantomData` => `PhantomData`
//@ spec ensures r matches Ok(v) ==> <Self as serde::Deserialize<'de>>::reads($0.doc(), v),
//@|     $0.faithful() && <Self as serde::Deserialize<'de>>::readable($0.doc()) ==> r is Ok
//@end
}
