// ---- options
pub open spec fn as_ref_opt<'x, G>(g: &'x Option<G>) -> Option<&'x G> { match g { Some(x) => Some(x), None => None } }
pub open spec fn copy_opt<G>(g: Option<&G>) -> Option<G> { match g { Some(x) => Some(*x), None => None } }
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>) ensures r == copy_opt(o);
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub open spec fn othen(a: Option<Ordering>, b: Option<Ordering>) -> Option<Ordering> { if a == Some(Ordering::Equal) { b } else { a } }
pub open spec fn opt_eq<A: PartialEq<B>, B>(a: Option<A>, b: Option<B>) -> bool { match (a, b) { (Some(x), Some(y)) => x.eq_spec(&y), (None, None) => true, _ => false } }
// no graph first
pub open spec fn opt_partial_cmp<A: PartialOrd<B>, B>(a: Option<A>, b: Option<B>) -> Option<Ordering> {
    match (a, b) { (Some(x), Some(y)) => x.partial_cmp_spec(&y), (None, None) => Some(Ordering::Equal), (None, Some(_)) => Some(Ordering::Less), (Some(_), None) => Some(Ordering::Greater) } }
pub open spec fn opt_cmp<A: Ord>(a: Option<A>, b: Option<A>) -> Ordering {
    match (a, b) { (Some(x), Some(y)) => x.cmp_spec(&y), (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater } }
// ---- Hash and Hasher: a hasher is characterised by what it was fed
pub enum Fed { Index(int), Text(Seq<char>), Other(int) }
pub trait Hasher { spec fn fed(&self) -> Seq<Fed>; }
pub trait Hash {
    spec fn fed(&self) -> Seq<Fed>;
    fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.fed();
}
// (std derives Hash for Option)
impl<T: Hash> Hash for Option<T> { open spec fn fed(&self) -> Seq<Fed> { match self { None => seq![Fed::Index(0)], Some(x) => seq![Fed::Index(1)] + x.fed() } }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
