//! Linear combinations: scalars with an absent zero, coefficients of formal sums.
use vstd::prelude::*;
use core::ops::{Add, Mul};
use vstd::std_specs::ops::*;
use crate::fields::*;
verus! {

// ------------------------------------------------------------ scalars

pub open spec fn sadd<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>) -> Option<C> {
    match a {
        None => b,
        Some(x) => match b { None => a, Some(y) => <C as AddSpec<C>>::add_spec(x, y) },
    }
}
pub open spec fn smul<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>) -> Option<C> {
    match a {
        None => None,
        Some(x) => match b { None => None, Some(y) => Some(<C as MulSpec<C>>::mul_spec(x, y)) },
    }
}
pub open spec fn sone<C: NonZeroCoefficient>() -> Option<C> { Some(C::one_spec()) }

#[verifier::opaque]
pub open spec fn is_ring<C: NonZeroCoefficient>() -> bool {
    &&& <C as AddSpec<C>>::obeys_add_spec()
    &&& <C as AddSpec<Option<C>>>::obeys_add_spec()
    &&& <C as MulSpec<C>>::obeys_mul_spec()
    &&& forall|x: C| #[trigger] x.valid_spec()
    &&& forall|x: C, y: C| #[trigger] <C as AddSpec<C>>::add_req(x, y)
    &&& forall|x: C, y: Option<C>| #[trigger] <C as AddSpec<Option<C>>>::add_req(x, y)
    &&& forall|x: C, y: Option<C>| (#[trigger] <C as AddSpec<Option<C>>>::add_spec(x, y)) == sadd(Some(x), y)
    &&& forall|x: C, y: C| #[trigger] <C as MulSpec<C>>::mul_req(x, y)
    &&& forall|a: Option<C>, b: Option<C>| (#[trigger] sadd(a, b)) == sadd(b, a)
    &&& forall|a: Option<C>, b: Option<C>, c: Option<C>| (#[trigger] sadd(sadd(a, b), c)) == sadd(a, sadd(b, c))
    &&& forall|a: Option<C>, b: Option<C>| (#[trigger] smul(a, b)) == smul(b, a)
    &&& forall|a: Option<C>, b: Option<C>, c: Option<C>| (#[trigger] smul(smul(a, b), c)) == smul(a, smul(b, c))
    &&& forall|a: Option<C>, b: Option<C>, c: Option<C>| (#[trigger] smul(sadd(a, b), c)) == sadd(smul(a, c), smul(b, c))
    &&& forall|a: Option<C>| (#[trigger] smul(a, sone())) == a
    &&& forall|x: C| (#[trigger] sadd(Some(x), Some(x.neg_spec()))) is None
}
#[verifier::opaque]
pub open spec fn is_field<C: Invertible>() -> bool {
    &&& is_ring::<C>()
    &&& forall|x: C| #[trigger] x.inv_req()
    &&& forall|x: C| (#[trigger] smul(Some(x), Some(x.inv_spec()))) == sone::<C>()
}
pub proof fn field_ring<C: Invertible>()
    requires is_field::<C>(),
    ensures is_ring::<C>(), forall|x: C| #[trigger] x.inv_req(),
{ reveal(is_field); }
/// the executable operators agree with the specification operators
pub proof fn ring_exec<C: NonZeroCoefficient>()
    requires is_ring::<C>(),
    ensures
        <C as AddSpec<C>>::obeys_add_spec(),
        <C as AddSpec<Option<C>>>::obeys_add_spec(),
        <C as MulSpec<C>>::obeys_mul_spec(),
        forall|x: C| #[trigger] x.valid_spec(),
        forall|x: C, y: C| #[trigger] <C as AddSpec<C>>::add_req(x, y),
        forall|x: C, y: Option<C>| #[trigger] <C as AddSpec<Option<C>>>::add_req(x, y),
        forall|x: C, y: C| #[trigger] <C as MulSpec<C>>::mul_req(x, y),
        forall|x: C, y: Option<C>| (#[trigger] <C as AddSpec<Option<C>>>::add_spec(x, y)) == sadd(Some(x), y),
{ reveal(is_ring); }
pub proof fn sadd_comm<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>)
    requires is_ring::<C>(),
    ensures sadd(a, b) == sadd(b, a),
{ reveal(is_ring); }
pub proof fn sadd_assoc<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>, c: Option<C>)
    requires is_ring::<C>(),
    ensures sadd(sadd(a, b), c) == sadd(a, sadd(b, c)),
{ reveal(is_ring); }
/// (a+b)+(c+d) == (a+c)+(b+d)
pub proof fn sadd_swap<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>, c: Option<C>, d: Option<C>)
    requires is_ring::<C>(),
    ensures sadd(sadd(a, b), sadd(c, d)) == sadd(sadd(a, c), sadd(b, d)),
{
    sadd_assoc(a, b, sadd(c, d)); sadd_assoc(b, c, d); sadd_comm(b, c); sadd_assoc(c, b, d); sadd_assoc(a, c, sadd(b, d));
}
/// (a+b)+c == (a+c)+b
pub proof fn sadd_right<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>, c: Option<C>)
    requires is_ring::<C>(),
    ensures sadd(sadd(a, b), c) == sadd(sadd(a, c), b),
{ sadd_assoc(a, b, c); sadd_comm(b, c); sadd_assoc(a, c, b); }
pub proof fn smul_comm<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>)
    requires is_ring::<C>(),
    ensures smul(a, b) == smul(b, a),
{ reveal(is_ring); }
pub proof fn smul_assoc<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>, c: Option<C>)
    requires is_ring::<C>(),
    ensures smul(smul(a, b), c) == smul(a, smul(b, c)),
{ reveal(is_ring); }
pub proof fn smul_dist<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>, c: Option<C>)
    requires is_ring::<C>(),
    ensures smul(sadd(a, b), c) == sadd(smul(a, c), smul(b, c)), smul(c, sadd(a, b)) == sadd(smul(c, a), smul(c, b)),
{ reveal(is_ring); smul_comm(c, sadd(a, b)); smul_comm(c, a); smul_comm(c, b); }
pub proof fn smul_one<C: NonZeroCoefficient>(a: Option<C>)
    requires is_ring::<C>(),
    ensures smul(a, sone()) == a, smul(sone(), a) == a,
{ reveal(is_ring); smul_comm(a, sone()); }
pub proof fn sneg<C: NonZeroCoefficient>(x: C)
    requires is_ring::<C>(),
    ensures sadd(Some(x), Some(x.neg_spec())) is None,
{ reveal(is_ring); }
pub proof fn sinv<C: Invertible>(x: C)
    requires is_field::<C>(),
    ensures smul(Some(x), Some(x.inv_spec())) == sone::<C>(), is_ring::<C>(),
{ reveal(is_field); }
/// cancellation: a+x == b+x ==> a == b
pub proof fn sadd_cancel<C: NonZeroCoefficient>(a: Option<C>, b: Option<C>, x: Option<C>)
    requires is_ring::<C>(), sadd(a, x) == sadd(b, x),
    ensures a == b,
{
    if x is Some {
        let n = Some((x->0).neg_spec());
        sneg(x->0);
        sadd_assoc(a, x, n); sadd_assoc(b, x, n);
    }
}
/// x + (j * (-x * 1/j)) == 0: the elimination step
pub proof fn selim<C: Invertible>(x: C, j: C)
    requires is_field::<C>(),
    ensures ({
        let m = <C as MulSpec<C>>::mul_spec(x.neg_spec(), j.inv_spec());
        sadd(Some(x), smul(Some(j), Some(m))) is None
    }),
{
    sinv(j);
    let m = <C as MulSpec<C>>::mul_spec(x.neg_spec(), j.inv_spec());
    let (nx, ij) = (Some(x.neg_spec()), Some(j.inv_spec()));
    assert(Some(m) == smul(nx, ij));
    smul_comm(Some(j), Some(m));
    smul_assoc(nx, ij, Some(j));
    smul_comm(ij, Some(j));
    smul_one(nx);
    sneg(x);
}

// the two-element field is a model of the axioms
pub proof fn z2_is_field()
    ensures is_field::<Z2>(),
{
    reveal(is_field); reveal(is_ring);
}

// ------------------------------------------------------------ formal sums

/// coefficient of `r` in the formal sum `s` (None is zero)
pub open spec fn coef<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, r: R) -> Option<C>
    decreases s.len(),
{
    if s.len() == 0 { None } else { sadd(coef(s.drop_last(), r), if s.last().1 == r { Some(s.last().0) } else { None }) }
}
pub open spec fn term<C: NonZeroCoefficient, R>(e: (C, R), r: R) -> Option<C> { if e.1 == r { Some(e.0) } else { None } }

/// same linear combination
pub open spec fn eqv<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, t: Seq<(C, R)>) -> bool {
    forall|r: R| #[trigger] coef(s, r) == coef(t, r)
}
pub open spec fn scale<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, c: C) -> Seq<(C, R)> {
    Seq::new(s.len(), |i: int| (<C as MulSpec<C>>::mul_spec(s[i].0, c), s[i].1))
}
pub open spec fn has_row<C, R>(s: Seq<(C, R)>, r: R) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == r }
pub open spec fn drop_row<C, R>(s: Seq<(C, R)>, r: R) -> Seq<(C, R)> { s.filter(|e: (C, R)| e.1 != r) }

pub proof fn coef_empty<C: NonZeroCoefficient, R>(r: R)
    ensures coef(Seq::<(C, R)>::empty(), r) is None,
{}
pub proof fn coef_push<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, e: (C, R), r: R)
    ensures coef(s.push(e), r) == sadd(coef(s, r), term(e, r)),
{ assert(s.push(e).drop_last() =~= s); }
pub proof fn coef_append<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, t: Seq<(C, R)>, r: R)
    requires is_ring::<C>(),
    ensures coef(s + t, r) == sadd(coef(s, r), coef(t, r)),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); }
    else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        coef_append(s, t.drop_last(), r);
        sadd_assoc(coef(s, r), coef(t.drop_last(), r), term(t.last(), r));
    }
}
pub proof fn coef_remove<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, i: int, r: R)
    requires is_ring::<C>(), 0 <= i < s.len(),
    ensures coef(s, r) == sadd(coef(s.remove(i), r), term(s[i], r)),
    decreases s.len(),
{
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
        coef_remove(s.drop_last(), i, r);
        sadd_right(coef(s.drop_last().remove(i), r), term(s[i], r), term(s.last(), r));
    }
}
pub proof fn coef_absent<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, r: R)
    requires !has_row(s, r),
    ensures coef(s, r) is None,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[s.len() - 1].1 != r);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).1 != r by { assert(s[i].1 != r); }
        coef_absent(s.drop_last(), r);
    }
}
pub proof fn coef_some_row<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, r: R)
    requires coef(s, r) is Some,
    ensures has_row(s, r),
{ if !has_row(s, r) { coef_absent(s, r); } }
pub proof fn coef_scale<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, c: C, r: R)
    requires is_ring::<C>(),
    ensures coef(scale(s, c), r) == smul(coef(s, r), Some(c)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(scale(s, c).drop_last() =~= scale(s.drop_last(), c));
        coef_scale(s.drop_last(), c, r);
        smul_dist(coef(s.drop_last(), r), term(s.last(), r), Some(c));
    }
}
pub proof fn coef_perm<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, t: Seq<(C, R)>)
    requires is_ring::<C>(), s.to_multiset() =~= t.to_multiset(),
    ensures eqv(s, t),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && t.len() == t.to_multiset().len());
    if s.len() > 0 {
        let e = s.last();
        assert(s.to_multiset().count(e) > 0) by { assert(s.contains(e)); }
        assert(t.contains(e));
        let i = t.index_of(e);
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        coef_perm(s.drop_last(), t.remove(i));
        assert forall|r: R| #[trigger] coef(s, r) == coef(t, r) by {
            coef_remove(t, i, r);
            assert(coef(s.drop_last(), r) == coef(t.remove(i), r));
        }
    }
}

/// a single row in a duplicate-free list
pub open spec fn distinct_rows<C, R>(s: Seq<(C, R)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 != (#[trigger] s[j]).1
}
pub proof fn coef_distinct<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, i: int)
    requires is_ring::<C>(), 0 <= i < s.len(), distinct_rows(s),
    ensures coef(s, s[i].1) == Some(s[i].0),
{
    coef_remove(s, i, s[i].1);
    let t = s.remove(i);
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).1 != s[i].1 by {
        if j < i { assert(t[j] == s[j]); } else { assert(t[j] == s[j + 1]); }
    }
    coef_absent(t, s[i].1);
}

/// `s` is `t` times `c`
pub open spec fn is_scaled<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, t: Seq<(C, R)>, c: C) -> bool {
    forall|r: R| #[trigger] coef(s, r) == smul(coef(t, r), Some(c))
}
pub proof fn scaled_by_terms<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, u: Seq<(C, R)>, t: Seq<(C, R)>, c: C)
    requires is_ring::<C>(), eqv(u, t), s.len() == u.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == (<C as MulSpec<C>>::mul_spec(u[i].0, c), u[i].1),
    ensures is_scaled(s, t, c),
{
    assert(s =~= scale(u, c));
    assert forall|r: R| #[trigger] coef(s, r) == smul(coef(t, r), Some(c)) by { coef_scale(u, c, r); assert(coef(u, r) == coef(t, r)); }
}
/// concatenating scaled columns is applying the matrix
pub proof fn flat_scaled<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, parts: Seq<Seq<(C, R)>>, t: Seq<(C, K)>)
    requires is_ring::<C>(), parts.len() == s.len(), eqv(s, t),
        forall|i: int| 0 <= i < s.len() ==> is_scaled(#[trigger] parts[i], a(s[i].1), s[i].0),
    ensures eqv(crate::iters::flat(parts), mulcol(a, t)),
{
    assert forall|r: R| #[trigger] coef(crate::iters::flat(parts), r) == coef(mulcol(a, t), r) by {
        flat_mulc(a, s, parts, r); mulc_congr(a, s, t, r); mulcol_coef(a, t, r);
    }
}
pub proof fn flat_mulc<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, parts: Seq<Seq<(C, R)>>, r: R)
    requires is_ring::<C>(), parts.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> is_scaled(#[trigger] parts[i], a(s[i].1), s[i].0),
    ensures coef(crate::iters::flat(parts), r) == mulc(a, s, r),
    decreases s.len(),
{
    if s.len() > 0 {
        let n = s.len() - 1;
        let s1 = s.drop_last(); let p1 = parts.drop_last();
        assert forall|i: int| 0 <= i < s1.len() implies is_scaled(#[trigger] p1[i], a(s1[i].1), s1[i].0) by { assert(p1[i] == parts[i]); }
        flat_mulc(a, s1, p1, r);
        coef_append(crate::iters::flat(p1), parts.last(), r);
        assert(is_scaled(parts[n], a(s[n].1), s[n].0));
    }
}

// ------------------------------------------------------------ removing one row

pub proof fn drop_row_coef<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, x: R, r: R)
    requires is_ring::<C>(),
    ensures
        coef(drop_row(s, x), r) == (if r == x { None } else { coef(s, r) }),
        drop_row(s, x).len() <= s.len(),
        has_row(s, x) ==> drop_row(s, x).len() < s.len(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let p = |e: (C, R)| e.1 != x;
        drop_row_coef(s.drop_last(), x, r);
        assert(drop_row(s, x) == (if s.last().1 != x { drop_row(s.drop_last(), x).push(s.last()) } else { drop_row(s.drop_last(), x) }));
        if s.last().1 != x { coef_push(drop_row(s.drop_last(), x), s.last(), r); }
        if has_row(s, x) && s.last().1 != x {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == x;
            assert(s.drop_last()[i].1 == x);
            assert(has_row(s.drop_last(), x));
        }
    }
}

// ------------------------------------------------------------ applying a matrix to a formal sum

/// concatenation of the scaled columns A(row) * coefficient, in order
pub open spec fn mulcol<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>) -> Seq<(C, R)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { mulcol(a, s.drop_last()) + scale(a(s.last().1), s.last().0) }
}
/// the coefficient of `r` in `A s`, directly as a sum
pub open spec fn mulc<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R) -> Option<C>
    decreases s.len(),
{
    if s.len() == 0 { None } else { sadd(mulc(a, s.drop_last(), r), smul(coef(a(s.last().1), r), Some(s.last().0))) }
}
pub proof fn mulcol_coef<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R)
    requires is_ring::<C>(),
    ensures coef(mulcol(a, s), r) == mulc(a, s, r),
    decreases s.len(),
{
    if s.len() > 0 {
        mulcol_coef(a, s.drop_last(), r);
        coef_append(mulcol(a, s.drop_last()), scale(a(s.last().1), s.last().0), r);
        coef_scale(a(s.last().1), s.last().0, r);
    }
}
/// pulling out all occurrences of one row
pub proof fn mulc_drop<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, k: K, r: R)
    requires is_ring::<C>(),
    ensures mulc(a, s, r) == sadd(mulc(a, drop_row(s, k), r), smul(coef(a(k), r), coef(s, k))),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        let e = s.last();
        mulc_drop(a, t, k, r);
        let x = mulc(a, drop_row(t, k), r);
        let y = smul(coef(a(k), r), coef(t, k));
        let z = smul(coef(a(e.1), r), Some(e.0));
        if e.1 != k {
            assert(drop_row(s, k) == drop_row(t, k).push(e));
            assert(drop_row(s, k).drop_last() =~= drop_row(t, k));
            sadd_right(x, y, z);
        } else {
            assert(drop_row(s, k) == drop_row(t, k));
            sadd_assoc(x, y, z);
            smul_dist(coef(t, k), Some(e.0), coef(a(k), r));
        }
    }
}
pub proof fn mulc_congr<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, t: Seq<(C, K)>, r: R)
    requires is_ring::<C>(), eqv(s, t),
    ensures mulc(a, s, r) == mulc(a, t, r),
    decreases s.len() + t.len(),
{
    if s.len() > 0 || t.len() > 0 {
        let k = if s.len() > 0 { s.last().1 } else { t.last().1 };
        let s2 = drop_row(s, k);
        let t2 = drop_row(t, k);
        if s.len() > 0 { assert(s[s.len() - 1].1 == k); assert(has_row(s, k)); } else { assert(t[t.len() - 1].1 == k); assert(has_row(t, k)); }
        assert forall|q: K| #[trigger] coef(s2, q) == coef(t2, q) by { drop_row_coef(s, k, q); drop_row_coef(t, k, q); assert(coef(s, q) == coef(t, q)); }
        drop_row_coef(s, k, k);
        drop_row_coef(t, k, k);
        mulc_drop(a, s, k, r);
        mulc_drop(a, t, k, r);
        assert(coef(s, k) == coef(t, k));
        mulc_congr(a, s2, t2, r);
    }
}
/// A applied to equal combinations gives equal combinations, also when A's columns are only known up to eqv
pub proof fn mulc_congr2<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, b: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R)
    requires is_ring::<C>(), forall|i: int| 0 <= i < s.len() ==> eqv(a((#[trigger] s[i]).1), b(s[i].1)),
    ensures mulc(a, s, r) == mulc(b, s, r),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies eqv(a((#[trigger] s.drop_last()[i]).1), b(s.drop_last()[i].1)) by { assert(s[i] == s.drop_last()[i]); }
        mulc_congr2(a, b, s.drop_last(), r);
        assert(eqv(a(s[s.len() - 1].1), b(s[s.len() - 1].1)));
        assert(coef(a(s.last().1), r) == coef(b(s.last().1), r));
    }
}
pub proof fn mulc_append<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, t: Seq<(C, K)>, r: R)
    requires is_ring::<C>(),
    ensures mulc(a, s + t, r) == sadd(mulc(a, s, r), mulc(a, t, r)),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        mulc_append(a, s, t.drop_last(), r);
        sadd_assoc(mulc(a, s, r), mulc(a, t.drop_last(), r), smul(coef(a(t.last().1), r), Some(t.last().0)));
    }
}
pub proof fn mulc_scale<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, c: C, r: R)
    requires is_ring::<C>(),
    ensures mulc(a, scale(s, c), r) == smul(mulc(a, s, r), Some(c)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(scale(s, c).drop_last() =~= scale(s.drop_last(), c));
        mulc_scale(a, s.drop_last(), c, r);
        let x = coef(a(s.last().1), r);
        smul_assoc(x, Some(s.last().0), Some(c));
        smul_dist(mulc(a, s.drop_last(), r), smul(x, Some(s.last().0)), Some(c));
    }
}

/// the contribution of item `i` to row `r` of `A s`
pub open spec fn contrib<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R, i: int) -> Option<C> { smul(coef(a(s[i].1), r), Some(s[i].0)) }
/// combinations of columns written out entry by entry
pub proof fn mulc_pushes<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, r: R)
    ensures mulc(a, Seq::<(C, K)>::empty(), r) is None, forall|s: Seq<(C, K)>, e: (C, K)| #[trigger] mulc(a, s.push(e), r) == sadd(mulc(a, s, r), smul(coef(a(e.1), r), Some(e.0))),
{ assert forall|s: Seq<(C, K)>, e: (C, K)| #[trigger] mulc(a, s.push(e), r) == sadd(mulc(a, s, r), smul(coef(a(e.1), r), Some(e.0))) by { assert(s.push(e).drop_last() =~= s); } }
/// the product of two transposed maps, read the other way round
pub proof fn mulc_transposed<C: NonZeroCoefficient, K, R, L>(d: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R, b: spec_fn(K) -> Seq<(C, L)>, t: Seq<(C, K)>, a: L)
    requires
        is_ring::<C>(),
        forall|k: K| #[trigger] has_row(t, k) ==> coef(d(k), r) == coef(t, k) && coef(s, k) == coef(b(k), a),
        forall|k: K| !#[trigger] has_row(t, k) ==> coef(d(k), r) is None || !has_row(s, k),
    ensures mulc(d, s, r) == mulc(b, t, a),
    decreases t.len(),
{
    if t.len() == 0 {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] contrib(d, s, r, i)) is None by { assert(!has_row(t, s[i].1)); assert(has_row(s, s[i].1)); }
        mulc_none(d, s, r);
    } else {
        let k = t.last().1;
        assert(t[t.len() - 1].1 == k);
        assert(has_row(t, k));
        let (s2, t2) = (drop_row(s, k), drop_row(t, k));
        drop_row_coef(t, k, k);
        assert forall|q: K| #[trigger] has_row(t2, q) implies coef(d(q), r) == coef(t2, q) && coef(s2, q) == coef(b(q), a) by {
            drop_row_has(t, k, q); drop_row_coef(s, k, q); drop_row_coef(t, k, q);
            assert(has_row(t, q) && q != k);
        }
        assert forall|q: K| !#[trigger] has_row(t2, q) implies coef(d(q), r) is None || !has_row(s2, q) by {
            drop_row_has(t, k, q); drop_row_has(s, k, q);
            if q != k { assert(!has_row(t, q)); }
        }
        mulc_transposed(d, s2, r, b, t2, a);
        mulc_drop(d, s, k, r);
        mulc_drop(b, t, k, a);
        smul_comm(coef(d(k), r), coef(s, k));
    }
}
pub proof fn drop_row_has<C, R>(s: Seq<(C, R)>, x: R, r: R)
    ensures has_row(drop_row(s, x), r) <==> has_row(s, r) && r != x,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let q = s.drop_last();
        drop_row_has(q, x, r);
        let (t, u) = (drop_row(s, x), drop_row(q, x));
        assert(t == (if s.last().1 != x { u.push(s.last()) } else { u }));
        if has_row(q, r) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == r; assert(s[i].1 == r); }
        if has_row(u, r) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).1 == r; assert(t[i].1 == r); }
        if has_row(s, r) && s.last().1 != r { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == r; assert(q[i].1 == r); }
        if has_row(t, r) && s.last().1 != r { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == r; assert(u[i].1 == r); }
        if s.last().1 == r { assert(s[s.len() - 1].1 == r); if r != x { assert(t[t.len() - 1].1 == r); } }
    }
}
/// at most two items contribute
pub proof fn mulc_two<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R, p: int, q: int)
    requires is_ring::<C>(), 0 <= p < q, forall|i: int| 0 <= i < s.len() && i != p && i != q ==> (#[trigger] contrib(a, s, r, i)) is None,
    ensures mulc(a, s, r) == sadd(if p < s.len() { contrib(a, s, r, p) } else { None }, if q < s.len() { contrib(a, s, r, q) } else { None }),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] contrib(a, t, r, i) == contrib(a, s, r, i) by { assert(t[i] == s[i]); }
        mulc_two(a, t, r, p, q);
        let n = s.len() - 1;
        assert(mulc(a, s, r) == sadd(mulc(a, t, r), contrib(a, s, r, n)));
    }
}
pub proof fn mulc_none<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] contrib(a, s, r, i)) is None,
    ensures mulc(a, s, r) is None,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] contrib(a, t, r, i)) is None by { assert(t[i] == s[i]); assert(contrib(a, s, r, i) is None); }
        mulc_none(a, t, r);
        assert(contrib(a, s, r, s.len() - 1) is None);
    }
}
/// 1*(-1) + (-1)*(-1) == 0 and its mirror images
pub proof fn signs_cancel<C: NonZeroCoefficient>(x: C)
    requires is_ring::<C>(), x == C::one_spec() || x == C::one_spec().neg_spec(),
    ensures
        sadd(smul(Some(x), Some(C::one_spec())), smul(Some(x), Some(C::one_spec().neg_spec()))) is None,
        sadd(smul(Some(x), Some(C::one_spec().neg_spec())), smul(Some(x), Some(C::one_spec()))) is None,
        sadd(smul(Some(C::one_spec()), Some(x)), smul(Some(C::one_spec().neg_spec()), Some(x))) is None,
        sadd(smul(Some(C::one_spec().neg_spec()), Some(x)), smul(Some(C::one_spec()), Some(x))) is None,
{
    let o = C::one_spec();
    let n = o.neg_spec();
    sneg(o);
    smul_dist(Some(o), Some(n), Some(x));
    smul_dist(Some(n), Some(o), Some(x));
    sadd_comm(Some(o), Some(n));
}

/// an entry of `A s` comes from a column that `s` really contains
pub open spec fn feeds<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R, k: K) -> bool { coef(s, k) is Some && coef(a(k), r) is Some }
pub proof fn mulc_source<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, r: R)
    requires is_ring::<C>(), mulc(a, s, r) is Some,
    ensures exists|k: K| #[trigger] feeds(a, s, r, k),
    decreases s.len(),
{
    if s.len() > 0 {
        let k = s.last().1;
        mulc_drop(a, s, k, r);
        if !feeds(a, s, r, k) {
            let t = drop_row(s, k);
            assert(s[s.len() - 1].1 == k); assert(has_row(s, k));
            drop_row_coef(s, k, k);
            mulc_source(a, t, r);
            let j = choose|j: K| #[trigger] feeds(a, t, r, j);
            drop_row_coef(s, k, j);
            assert(feeds(a, s, r, j));
        }
    }
}

} // verus!
