//! Lawful orders and equality for index and filtration types.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {

pub open spec fn rev_ord(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
/// total order by `cmp_spec`
pub open spec fn leq<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) != Ordering::Greater }
pub open spec fn lt<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) == Ordering::Less }

/// What the library demands of its index and filtration types: equality is identity,
/// the comparison is a total order, clones are identical.
#[verifier::opaque]
pub open spec fn lawful<T: Ord + Clone>() -> bool {
    &&& T::obeys_eq_spec()
    &&& T::obeys_cmp_spec()
    &&& forall|a: T, b: T| (#[trigger] a.eq_spec(&b)) <==> a == b
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b)) == Ordering::Equal <==> a == b
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b)) == rev_ord(b.cmp_spec(&a))
    &&& forall|a: T, b: T, c: T| (#[trigger] leq(a, b)) && (#[trigger] leq(b, c)) ==> leq(a, c)
    &&& forall|a: &T, b: T| #[trigger] call_ensures(T::clone, (a,), b) ==> *a == b
}
pub proof fn lawful_eq<T: Ord + Clone>()
    requires lawful::<T>(),
    ensures T::obeys_eq_spec(), forall|a: T, b: T| (#[trigger] a.eq_spec(&b)) <==> a == b,
{ reveal(lawful); }
pub proof fn lawful_clone<T: Ord + Clone>()
    requires lawful::<T>(),
    ensures forall|a: &T, b: T| #[trigger] call_ensures(T::clone, (a,), b) ==> *a == b,
{ reveal(lawful); }
pub proof fn lawful_cmp<T: Ord + Clone>()
    requires lawful::<T>(),
    ensures T::obeys_cmp_spec(), forall|a: T, b: T| (#[trigger] a.cmp_spec(&b)) == Ordering::Equal <==> a == b,
{ reveal(lawful); }
pub proof fn leq_refl<T: Ord + Clone>(a: T)
    requires lawful::<T>(),
    ensures leq(a, a), !lt(a, a),
{ reveal(lawful); assert(a.cmp_spec(&a) == Ordering::Equal); }
pub proof fn leq_total<T: Ord + Clone>(a: T, b: T)
    requires lawful::<T>(),
    ensures leq(a, b) || leq(b, a), leq(a, b) <==> (lt(a, b) || a == b), leq(a, b) <==> !lt(b, a), lt(a, b) ==> a != b,
        a.cmp_spec(&b) == rev_ord(b.cmp_spec(&a)),
        a.cmp_spec(&b) == Ordering::Equal <==> a == b,
{ reveal(lawful); assert(a.cmp_spec(&b) == rev_ord(b.cmp_spec(&a))); }
pub proof fn leq_antisym<T: Ord + Clone>(a: T, b: T)
    requires lawful::<T>(), leq(a, b), leq(b, a),
    ensures a == b,
{ reveal(lawful); assert(a.cmp_spec(&b) == rev_ord(b.cmp_spec(&a))); }
pub proof fn leq_trans<T: Ord + Clone>(a: T, b: T, c: T)
    requires lawful::<T>(), leq(a, b), leq(b, c),
    ensures leq(a, c),
{ reveal(lawful); }
pub proof fn lt_trans<T: Ord + Clone>(a: T, b: T, c: T)
    requires lawful::<T>(), (lt(a, b) && leq(b, c)) || (leq(a, b) && lt(b, c)),
    ensures lt(a, c),
{
    leq_total(a, b); leq_total(b, c); leq_trans(a, b, c); leq_total(a, c);
    if a == c { leq_antisym(a, b); }
}

/// `(&a, &b).cmp(&(&c, &d))`
pub fn vp_lex_cmp2<A: Ord, B: Ord>(a: &A, b: &B, c: &A, d: &B) -> (r: Ordering)
    ensures A::obeys_cmp_spec() && B::obeys_cmp_spec() ==> r == (match a.cmp_spec(c) { Ordering::Equal => b.cmp_spec(d), o => o }),
{
    match a.cmp(c) { Ordering::Equal => b.cmp(d), o => o }
}

} // verus!
