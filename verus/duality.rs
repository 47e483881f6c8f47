//! Ghost theory: cohomology and homology pair the same cells. The inner product of combinations makes
//! the coboundary adjoint to the boundary.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::reduce::*;
verus! {

/// a combination as a row
pub open spec fn as_row<C: NonZeroCoefficient, K>(t: Seq<(C, K)>) -> spec_fn(K) -> Seq<(C, int)> { |k: K| match coef(t, k) { Some(c) => Seq::empty().push((c, 0int)), None => Seq::empty() } }
/// the inner product
pub open spec fn ip<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, t: Seq<(C, K)>) -> Option<C> { mulc(as_row(t), s, 0int) }
pub open spec fn both<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, t: Seq<(C, K)>, k: K) -> bool { coef(s, k) is Some && coef(t, k) is Some }
pub proof fn as_row_coef<C: NonZeroCoefficient, K>(t: Seq<(C, K)>, k: K)
    ensures coef(as_row(t)(k), 0int) == coef(t, k),
{ if coef(t, k) is Some { coef_push(Seq::<(C, int)>::empty(), (coef(t, k)->0, 0int), 0int); } }
pub proof fn ip_source<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, t: Seq<(C, K)>)
    requires is_ring::<C>(), ip(s, t) is Some,
    ensures exists|k: K| #[trigger] both(s, t, k),
{
    mulc_source(as_row(t), s, 0int);
    let k = choose|k: K| #[trigger] feeds(as_row(t), s, 0int, k);
    as_row_coef(t, k);
    assert(both(s, t, k));
}
/// one common row
pub proof fn ip_one<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, t: Seq<(C, K)>, p: K)
    requires is_ring::<C>(), both(s, t, p), forall|k: K| #[trigger] both(s, t, k) ==> k == p,
    ensures ip(s, t) is Some,
{
    let a = as_row(t);
    mulc_drop(a, s, p, 0int);
    as_row_coef(t, p);
    let u = drop_row(s, p);
    if mulc(a, u, 0int) is Some {
        mulc_source(a, u, 0int);
        let k = choose|k: K| #[trigger] feeds(a, u, 0int, k);
        as_row_coef(t, k);
        drop_row_coef(s, p, k);
        assert(both(s, t, k));
        coef_dropped(s, p);
    }
}
pub proof fn coef_dropped<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, p: K)
    ensures coef(drop_row(s, p), p) is None,
{
    drop_row_has(s, p, p);
    coef_absent(drop_row(s, p), p);
}
/// <dv, w> = <v, bw>
pub proof fn adjoint<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, b: spec_fn(K) -> Seq<(C, K)>, v: Seq<(C, K)>, w: Seq<(C, K)>)
    requires is_ring::<C>(), forall|x: K, y: K| has_row(v, x) && has_row(w, y) ==> #[trigger] coef(d(x), y) == #[trigger] coef(b(y), x),
    ensures ip(mulcol(d, v), w) == ip(v, mulcol(b, w)),
    decreases v.len(),
{
    if v.len() > 0 {
        let u = v.drop_last();
        let (c, x) = v.last();
        assert forall|k: K| #[trigger] has_row(u, k) implies has_row(v, k) by { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).1 == k; assert(v[i].1 == k); }
        assert(has_row(v, x)) by { assert(v[v.len() - 1].1 == x); }
        adjoint(d, b, u, w);
        mulc_append(as_row(w), mulcol(d, u), scale(d(x), c), 0int);
        mulc_scale(as_row(w), d(x), c, 0int);
        as_row_coef(mulcol(b, w), x);
        mulcol_coef(b, w, x);
        let a = as_row(w);
        assert forall|k: K| #[trigger] has_row(w, k) implies coef(a(k), 0int) == coef(w, k) && coef(d(x), k) == coef(b(k), x) by { as_row_coef(w, k); }
        assert forall|k: K| !#[trigger] has_row(w, k) implies coef(a(k), 0int) is None || !has_row(d(x), k) by { as_row_coef(w, k); coef_absent(w, k); }
        mulc_transposed(a, d(x), 0int, b, w, x);
    }
}

/// the same combination, without rows that cancel
pub proof fn tidy<C: NonZeroCoefficient, K>(s: Seq<(C, K)>) -> (t: Seq<(C, K)>)
    requires is_ring::<C>(),
    ensures eqv(t, s), forall|k: K| #[trigger] has_row(t, k) ==> coef(s, k) is Some,
    decreases s.len(),
{
    if s.len() == 0 { s } else {
        let x = s.last().1;
        let u = drop_row(s, x);
        assert(has_row(s, x)) by { assert(s[s.len() - 1].1 == x); }
        drop_shorter(s, x);
        let t1 = tidy(u);
        let t = if coef(s, x) is Some { t1.push((coef(s, x)->0, x)) } else { t1 };
        coef_dropped(s, x);
        assert forall|k: K| #[trigger] coef(t, k) == coef(s, k) by {
            assert(coef(t1, k) == coef(u, k));
            if k != x { drop_row_coef(s, x, k); }
            if coef(s, x) is Some { coef_push(t1, (coef(s, x)->0, x), k); }
        }
        assert forall|k: K| #[trigger] has_row(t, k) implies coef(s, k) is Some by {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == k;
            if i < t1.len() {
                assert(t1[i].1 == k);
                assert(has_row(t1, k));
                assert(coef(u, k) is Some);
                if k != x { drop_row_coef(s, x, k); }
            }
        }
        t
    }
}
pub proof fn drop_shorter<C, K>(s: Seq<(C, K)>, x: K)
    requires s.len() > 0, s.last().1 == x,
    ensures drop_row(s, x).len() < s.len(),
{
    let p = |e: (C, K)| e.1 != x;
    reveal(Seq::filter);
    s.drop_last().lemma_filter_len(p);
}
/// <dv, w> = <v, bw> when d is the transpose of b where it matters
pub proof fn adjoint_live<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, b: spec_fn(K) -> Seq<(C, K)>, v: Seq<(C, K)>, w: Seq<(C, K)>)
    requires is_ring::<C>(), forall|x: K, y: K| (#[trigger] coef(v, x)) is Some && (#[trigger] coef(w, y)) is Some ==> coef(d(x), y) == coef(b(y), x),
    ensures ip(mulcol(d, v), w) == ip(v, mulcol(b, w)),
{
    let (v1, w1) = (tidy(v), tidy(w));
    assert forall|x: K, y: K| has_row(v1, x) && has_row(w1, y) implies #[trigger] coef(d(x), y) == #[trigger] coef(b(y), x) by { assert(coef(v, x) is Some && coef(w, y) is Some); }
    adjoint(d, b, v1, w1);
    assert(as_row(w1) =~= as_row(w)) by { assert forall|k: K| #[trigger] as_row(w1)(k) == as_row(w)(k) by { assert(coef(w1, k) == coef(w, k)); } }
    mulcol_congr(d, v1, v); mulcol_congr(b, w1, w);
    mulc_congr(as_row(w), mulcol(d, v1), mulcol(d, v), 0int);
    let (c1, c) = (mulcol(b, w1), mulcol(b, w));
    assert(as_row(c1) =~= as_row(c)) by { assert forall|k: K| #[trigger] as_row(c1)(k) == as_row(c)(k) by { assert(coef(c1, k) == coef(c, k)); } }
    mulc_congr(as_row(c), v1, v, 0int);
}

/// Reduced coboundaries: `v` of a cell is the cell and later ones; the coboundary of the birth of a pair starts
/// with its death; the other cells have no coboundary left.
pub open spec fn co_reduced<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, births: spec_fn(K) -> bool, v: spec_fn(K) -> Seq<(C, K)>, par: spec_fn(K, K) -> bool) -> bool {
    &&& forall|x: K| #[trigger] births(x) ==> from_on(f, v(x), x)
    &&& forall|x: K, y: K| #[trigger] par(x, y) ==> births(x) && from_on(f, mulcol(d, v(x)), y)
    &&& forall|x: K| births(x) && !is_null(#[trigger] mulcol(d, v(x))) ==> exists|y: K| #[trigger] par(x, y)
    &&& forall|x: K, z: K, y: K| #[trigger] par(x, y) && #[trigger] par(z, y) ==> x == z
}
/// non-zero at `x`, otherwise only at later cells
pub open spec fn from_on<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, s: Seq<(C, K)>, x: K) -> bool {
    coef(s, x) is Some && forall|z: K| (#[trigger] coef(s, z)) is Some ==> z == x || rlt(f, x, z)
}
/// Reduced boundaries over the listed deaths
pub open spec fn bd_reduced<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, ys: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, births: spec_fn(K) -> bool, par: spec_fn(K, K) -> bool) -> bool {
    &&& valid(f, b, ys, w)
    &&& forall|i: int, j: int| 0 <= i < j < ys.len() ==> rlt(f, #[trigger] ys[i], #[trigger] ys[j])
    &&& forall|x: K, y: K| #[trigger] par(x, y) ==> ys.contains(y)
    &&& forall|y: K, p: K| ys.contains(y) && #[trigger] is_lead(f, rcol(b, w)(y), p) ==> births(p)
}
/// the columns on which the coboundary is the transpose of the boundary
pub open spec fn transposed<C: NonZeroCoefficient, K: BasisElement>(d: spec_fn(K) -> Seq<(C, K)>, b: spec_fn(K) -> Seq<(C, K)>, ys: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, births: spec_fn(K) -> bool, v: spec_fn(K) -> Seq<(C, K)>) -> bool {
    forall|p: K, y: K, x: K, z: K| births(p) && ys.contains(y) && (#[trigger] coef(v(p), x)) is Some && (#[trigger] coef(w(y), z)) is Some ==> coef(d(x), z) == coef(b(z), x)
}
/// the lead of a reduced boundary is the birth of a pair that dies no later
pub proof fn dual_step<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: spec_fn(K) -> Seq<(C, K)>, births: spec_fn(K) -> bool, v: spec_fn(K) -> Seq<(C, K)>, par: spec_fn(K, K) -> bool, ys: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, j: int, p: K) -> (j2: int)
    requires is_field::<C>(), co_reduced(f, d, births, v, par), bd_reduced(f, b, ys, w, births, par), transposed(d, b, ys, w, births, v), 0 <= j < ys.len(), is_lead(f, rcol(b, w)(ys[j]), p),
    ensures 0 <= j2 <= j, par(p, ys[j2]),
{
    field_ring::<C>();
    let y = ys[j];
    let wy = w(y);
    let c = mulcol(b, wy);
    assert(ys.contains(y));
    assert(tri(ys, wy, j));
    assert(births(p));
    // <v_p, bw_y> is not zero
    assert forall|q: K| #[trigger] both(v(p), c, q) implies q == p by { rlt_total(f, p, q); assert(coef(v(p), q) is Some && coef(c, q) is Some); }
    assert(both(v(p), c, p));
    ip_one(v(p), c, p);
    adjoint_live(d, b, v(p), wy);
    ip_source(mulcol(d, v(p)), wy);
    let z = choose|z: K| #[trigger] both(mulcol(d, v(p)), wy, z);
    assert(!is_null(mulcol(d, v(p)))) by { assert(coef(mulcol(d, v(p)), z) is Some); }
    let y2 = choose|y2: K| #[trigger] par(p, y2);
    assert(ys.contains(y2));
    let j2 = ys.index_of(y2);
    assert(ys[j2] == y2);
    assert(upto(ys, z, j));
    let i = choose|i: int| 0 <= i <= j && i < ys.len() && #[trigger] ys[i] == z;
    assert(z == y2 || rlt(f, y2, z));
    if j2 > j {
        assert(rlt(f, ys[i], ys[j2]));
        rlt_total(f, y2, z);
    }
    j2
}
/// the reduced boundary of a death is not zero
pub proof fn dual_alive<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: spec_fn(K) -> Seq<(C, K)>, births: spec_fn(K) -> bool, v: spec_fn(K) -> Seq<(C, K)>, par: spec_fn(K, K) -> bool, ys: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, j: int, x: K) -> (p: K)
    requires is_field::<C>(), co_reduced(f, d, births, v, par), bd_reduced(f, b, ys, w, births, par), transposed(d, b, ys, w, births, v), 0 <= j < ys.len(), par(x, ys[j]),
    ensures is_lead(f, rcol(b, w)(ys[j]), p),
{
    field_ring::<C>();
    let y = ys[j];
    let wy = w(y);
    let c = mulcol(b, wy);
    assert(ys.contains(y));
    assert(births(x));
    assert(tri(ys, wy, j));
    // <dv_x, w_y> is not zero
    assert forall|k: K| #[trigger] both(mulcol(d, v(x)), wy, k) implies k == y by { death_only(f, mulcol(d, v(x)), ys, wy, j, k); }
    ip_one(mulcol(d, v(x)), wy, y);
    adjoint_live(d, b, v(x), wy);
    ip_source(v(x), c);
    let k = choose|k: K| #[trigger] both(v(x), c, k);
    lead_exists(f, c);
    assert(!is_null(c)) by { assert(coef(c, k) is Some); }
    choose|p: K| #[trigger] is_lead(f, c, p)
}
/// the reduced boundary of a cell has a lead exactly when the cell is a death, and it is the birth
pub proof fn theorem_dual<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: spec_fn(K) -> Seq<(C, K)>, births: spec_fn(K) -> bool, v: spec_fn(K) -> Seq<(C, K)>, par: spec_fn(K, K) -> bool, ys: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, j: int)
    requires is_field::<C>(), co_reduced(f, d, births, v, par), bd_reduced(f, b, ys, w, births, par), transposed(d, b, ys, w, births, v), 0 <= j < ys.len(),
    ensures forall|x: K| #![trigger par(x, ys[j])] #![trigger is_lead(f, rcol(b, w)(ys[j]), x)] par(x, ys[j]) <==> is_lead(f, rcol(b, w)(ys[j]), x),
    decreases j,
{
    let y = ys[j];
    assert forall|p: K| #[trigger] is_lead(f, rcol(b, w)(y), p) implies par(p, y) by {
        let j2 = dual_step(f, d, b, births, v, par, ys, w, j, p);
        if j2 < j {
            theorem_dual(f, d, b, births, v, par, ys, w, j2);
            assert(is_lead(f, rcol(b, w)(ys[j2]), p));
            assert(is_lead(f, rcol(b, w)(ys[j]), p));
        }
    }
    assert forall|x: K| #[trigger] par(x, y) implies is_lead(f, rcol(b, w)(y), x) by {
        let p = dual_alive(f, d, b, births, v, par, ys, w, j, x);
        assert(par(p, y));
    }
}
pub proof fn death_only<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, s: Seq<(C, K)>, ys: Seq<K>, wy: Seq<(C, K)>, j: int, k: K)
    requires
        0 <= j < ys.len(), from_on(f, s, ys[j]), tri(ys, wy, j), both(s, wy, k),
        forall|i: int, j: int| 0 <= i < j < ys.len() ==> rlt(f, #[trigger] ys[i], #[trigger] ys[j]),
    ensures k == ys[j],
{
    assert(coef(s, k) is Some && coef(wy, k) is Some);
    assert(upto(ys, k, j));
    let i = choose|i: int| 0 <= i <= j && i < ys.len() && #[trigger] ys[i] == k;
    if i < j { assert(rlt(f, ys[i], ys[j])); rlt_total(f, ys[i], ys[j]); }
}

} // verus!
