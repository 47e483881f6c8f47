//! Ghost theory: the pairs of a filtered complex read off the reduced boundaries are the pairs read off the reduced
//! coboundaries in reverse order.
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::models::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::reduce::*;
use crate::duality::*;
use crate::reduction::*;
use crate::standard::*;
use crate::clearing::*;
verus! {

/// the reversed filtration
pub open spec fn rfilt<F, K>(f: spec_fn(K) -> F) -> spec_fn(Reverse<K>) -> Reverse<F> { |x: Reverse<K>| Reverse(f(x.0)) }
/// the reversed matrix
pub open spec fn rmap<C, K>(d: spec_fn(K) -> Seq<(C, K)>) -> spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)> { |x: Reverse<K>| rev_rows(d(x.0)) }
pub open spec fn unrev<C, K>(v: spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)>) -> spec_fn(K) -> Seq<(C, K)> { |x: K| unrev_rows(v(Reverse(x))) }
pub proof fn rlt_flip<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, a: K, b: K)
    ensures rlt(rfilt(f), Reverse(a), Reverse(b)) == rlt(f, b, a),
{
    F::lawful_filt(); K::lawful_elem();
    let (p, q) = (f(a), f(b));
    leq_total(p, q); leq_total(q, p); leq_total(a, b); leq_total(b, a);
    assert(OrdSpec::cmp_spec(&Reverse(p), &Reverse(q)) == OrdSpec::cmp_spec(&q, &p));
    assert(OrdSpec::cmp_spec(&Reverse(a), &Reverse(b)) == OrdSpec::cmp_spec(&b, &a));
}
pub proof fn mulcol_flip<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, s: Seq<(C, K)>)
    ensures mulcol(rmap(d), rev_rows(s)) == rev_rows(mulcol(d, s)),
    decreases s.len(),
{
    let dr = rmap(d);
    if s.len() > 0 {
        let s1 = s.drop_last();
        mulcol_flip(d, s1);
        assert(rev_rows(s).drop_last() =~= rev_rows(s1));
        let (c, x) = s.last();
        assert(rev_rows(s).last() == (c, Reverse(x)));
        assert(dr(Reverse(x)) == rev_rows(d(x)));
        assert(scale(rev_rows(d(x)), c) =~= rev_rows(scale(d(x), c)));
        assert(rev_rows(mulcol(d, s1) + scale(d(x), c)) =~= rev_rows(mulcol(d, s1)) + rev_rows(scale(d(x), c)));
    } else {
        assert(mulcol(dr, rev_rows(s)) =~= rev_rows(mulcol(d, s)));
    }
}
/// reading a reversed column forwards
pub proof fn unrev_is<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, vr: spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)>, x: K, y: K)
    ensures coef(unrev(vr)(x), y) == coef(vr(Reverse(x)), Reverse(y)), coef(mulcol(d, unrev(vr)(x)), y) == coef(rcol(rmap(d), vr)(Reverse(x)), Reverse(y)),
{
    let s = vr(Reverse(x));
    let u = unrev_rows(s);
    coef_unrev(s, y);
    assert(rev_rows(u) =~= s);
    mulcol_flip(d, u);
    coef_rev(mulcol(d, u), y);
}

// ---------------------------------------------------------------- two consecutive degrees
/// `d` from `lo` and `b` from `hi` are transposes of each other and have their rows in the other list
pub open spec fn dual_cx<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < lo.len() ==> rlt(f, #[trigger] lo[i], #[trigger] lo[j])
    &&& forall|i: int, j: int| 0 <= i < j < hi.len() ==> rlt(f, #[trigger] hi[i], #[trigger] hi[j])
    &&& forall|x: K, y: K| lo.contains(x) && hi.contains(y) ==> #[trigger] coef(d(x), y) == #[trigger] coef(b(y), x)
    &&& forall|x: K, y: K| hi.contains(y) && (#[trigger] coef(b(y), x)) is Some ==> lo.contains(x)
    &&& forall|x: K, y: K| lo.contains(x) && (#[trigger] coef(d(x), y)) is Some ==> hi.contains(y)
}
pub open spec fn in_list<K>(s: Seq<K>) -> spec_fn(K) -> bool { |x: K| s.contains(x) }
/// the pairs of the reduced coboundaries
pub open spec fn co_par<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, vr: spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)>) -> spec_fn(K, K) -> bool {
    |x: K, y: K| lo.contains(x) && is_lead(rfilt(f), rcol(rmap(d), vr)(Reverse(x)), Reverse(y))
}
/// the rows of a combination of columns come from its columns
pub proof fn comb_row<C: NonZeroCoefficient, K, R>(d: spec_fn(K) -> Seq<(C, R)>, b: Seq<K>, s: Seq<(C, K)>, j: int, r: R) -> (i: int)
    requires is_ring::<C>(), supp_upto(b, s, j), coef(mulcol(d, s), r) is Some,
    ensures 0 <= i <= j, i < b.len(), coef(d(b[i]), r) is Some, coef(s, b[i]) is Some,
{
    mulcol_coef(d, s, r);
    mulc_source(d, s, r);
    let k = choose|k: K| #[trigger] feeds(d, s, r, k);
    assert(coef(s, k) is Some);
    assert(upto(b, k, j));
    choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k
}
/// a reversed column read forwards: the cell and later ones
pub proof fn co_col<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, vr: spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)>, x: K)
    requires
        valid(rfilt(f), rmap(d), rev_seq(lo), vr), lo.contains(x),
        forall|i: int, j: int| 0 <= i < j < lo.len() ==> rlt(f, #[trigger] lo[i], #[trigger] lo[j]),
    ensures
        from_on(f, unrev(vr)(x), x), forall|z: K| (#[trigger] coef(unrev(vr)(x), z)) is Some ==> lo.contains(z),
        0 <= lo.len() - 1 - lo.index_of(x) < rev_seq(lo).len(), rev_seq(lo)[lo.len() - 1 - lo.index_of(x)] == Reverse(x), tri(rev_seq(lo), vr(Reverse(x)), lo.len() - 1 - lo.index_of(x)),
{
    let b = rev_seq(lo);
    let k = lo.index_of(x);
    let j = lo.len() - 1 - k;
    assert(b[j] == Reverse(x));
    assert(tri(b, vr(b[j]), j));
    unrev_is(d, vr, x, x);
    assert forall|z: K| (#[trigger] coef(unrev(vr)(x), z)) is Some implies lo.contains(z) && (z == x || rlt(f, x, z)) by {
        unrev_is(d, vr, x, z);
        assert(upto(b, Reverse(z), j));
        let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == Reverse(z);
        assert(lo[lo.len() - 1 - i] == z);
        if i < j { assert(rlt(f, lo[k], lo[lo.len() - 1 - i])); }
    }
}
pub proof fn co_list<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, vr: spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)>)
    requires is_field::<C>(), dual_cx(f, b, d, lo, hi), valid(rfilt(f), rmap(d), rev_seq(lo), vr),
    ensures co_reduced(f, d, in_list(lo), unrev(vr), co_par(f, d, lo, vr)), forall|x: K, y: K| #[trigger] co_par(f, d, lo, vr)(x, y) ==> hi.contains(y),
{
    field_ring::<C>();
    let (v, par, rf, a) = (unrev(vr), co_par(f, d, lo, vr), rfilt(f), rcol(rmap(d), vr));
    assert forall|x: K| #[trigger] in_list(lo)(x) implies from_on(f, v(x), x) by { co_col(f, d, lo, vr, x); }
    assert forall|x: K, y: K| #[trigger] par(x, y) implies in_list(lo)(x) && hi.contains(y) && from_on(f, mulcol(d, v(x)), y) by {
        let s = mulcol(d, v(x));
        unrev_is(d, vr, x, y);
        assert(coef(a(Reverse(x)), Reverse(y)) is Some);
        assert forall|z: K| (#[trigger] coef(s, z)) is Some implies z == y || rlt(f, y, z) by { unrev_is(d, vr, x, z); rlt_flip(f, z, y); assert(coef(a(Reverse(x)), Reverse(z)) is Some); }
        co_col(f, d, lo, vr, x);
        mulcol_coef(d, v(x), y);
        mulc_source(d, v(x), y);
        let k = choose|k: K| #[trigger] feeds(d, v(x), y, k);
        assert(coef(v(x), k) is Some);
        assert(lo.contains(k));
    }
    assert forall|x: K| in_list(lo)(x) && !is_null(#[trigger] mulcol(d, v(x))) implies exists|y: K| #[trigger] par(x, y) by {
        let z = choose|z: K| (#[trigger] coef(mulcol(d, v(x)), z)) is Some;
        unrev_is(d, vr, x, z);
        assert(coef(a(Reverse(x)), Reverse(z)) is Some);
        lead_exists(rf, a(Reverse(x)));
        let y = choose|y: Reverse<K>| #[trigger] is_lead(rf, a(Reverse(x)), y);
        assert(Reverse(y.0) == y);
        assert(par(x, y.0));
    }
    assert forall|x: K, z: K, y: K| #[trigger] par(x, y) && #[trigger] par(z, y) implies x == z by {
        co_col(f, d, lo, vr, x); co_col(f, d, lo, vr, z);
        let (i, j) = (lo.len() - 1 - lo.index_of(x), lo.len() - 1 - lo.index_of(z));
        assert(is_lead(rf, a(rev_seq(lo)[i]), Reverse(y)) && is_lead(rf, a(rev_seq(lo)[j]), Reverse(y)));
    }
}
/// The pairs of two consecutive degrees: homology and cohomology.
pub proof fn theorem_same_pairs<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, vr: spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)>)
    requires is_field::<C>(), dual_cx(f, b, d, lo, hi), valid(f, b, hi, w), valid(rfilt(f), rmap(d), rev_seq(lo), vr),
    ensures
        forall|x: K, y: K| #![trigger is_lead(f, rcol(b, w)(y), x)] #![trigger is_lead(rfilt(f), rcol(rmap(d), vr)(Reverse(x)), Reverse(y))]
            (hi.contains(y) && is_lead(f, rcol(b, w)(y), x)) <==> (lo.contains(x) && is_lead(rfilt(f), rcol(rmap(d), vr)(Reverse(x)), Reverse(y))),
{
    field_ring::<C>();
    let (v, par, births) = (unrev(vr), co_par(f, d, lo, vr), in_list(lo));
    co_list(f, b, d, lo, hi, vr);
    assert forall|y: K, p: K| hi.contains(y) && #[trigger] is_lead(f, rcol(b, w)(y), p) implies births(p) by {
        let j = hi.index_of(y);
        assert(tri(hi, w(hi[j]), j));
        let i = comb_row(b, hi, w(y), j, p);
        assert(hi.contains(hi[i]));
    }
    assert(bd_reduced(f, b, hi, w, births, par));
    assert forall|p: K, y: K, x: K, z: K| births(p) && hi.contains(y) && (#[trigger] coef(v(p), x)) is Some && (#[trigger] coef(w(y), z)) is Some implies coef(d(x), z) == coef(b(z), x) by {
        co_col(f, d, lo, vr, p);
        let j = hi.index_of(y);
        assert(tri(hi, w(hi[j]), j));
        assert(upto(hi, z, j));
        assert(hi.contains(z));
    }
    assert(transposed(d, b, hi, w, births, v));
    assert forall|x: K, y: K| #![trigger is_lead(f, rcol(b, w)(y), x)] #![trigger is_lead(rfilt(f), rcol(rmap(d), vr)(Reverse(x)), Reverse(y))]
            (hi.contains(y) && is_lead(f, rcol(b, w)(y), x)) <==> (lo.contains(x) && is_lead(rfilt(f), rcol(rmap(d), vr)(Reverse(x)), Reverse(y))) by {
        if par(x, y) { assert(hi.contains(y)); }
        if hi.contains(y) {
            let j = hi.index_of(y);
            theorem_dual(f, d, b, births, v, par, hi, w, j);
            assert(par(x, hi[j]) <==> is_lead(f, rcol(b, w)(hi[j]), x));
        }
    }
}

// ---------------------------------------------------------------- all degrees
pub open spec fn rev_levels<K>(cs: Seq<Seq<K>>) -> Seq<Seq<Reverse<K>>> { Seq::new(cs.len(), |t: int| rev_seq(cs[t])) }
/// `hs[t]` and `cs[t]` list the cells of degree `t`; `b` goes down and `d` goes up by one degree
pub open spec fn dual_levels<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>) -> bool {
    &&& forall|t: int, i: int, j: int| 0 <= t < hs.len() && 0 <= i < j < hs[t].len() ==> rlt(f, #[trigger] hs[t][i], #[trigger] hs[t][j])
    &&& forall|t: int, i: int, j: int| 0 <= t < cs.len() && 0 <= i < j < cs[t].len() ==> rlt(f, #[trigger] cs[t][i], #[trigger] cs[t][j])
    &&& forall|t: int, x: K| 0 <= t < hs.len() && t < cs.len() ==> (#[trigger] hs[t].contains(x) <==> #[trigger] cs[t].contains(x))
    &&& forall|s: int, t: int, x: K| 0 <= s < hs.len() && 0 <= t < hs.len() && #[trigger] hs[s].contains(x) && #[trigger] hs[t].contains(x) ==> s == t
    &&& forall|s: int, t: int, x: K| 0 <= s < cs.len() && 0 <= t < cs.len() && #[trigger] cs[s].contains(x) && #[trigger] cs[t].contains(x) ==> s == t
    &&& forall|t: int, y: K, x: K| 0 <= t < hs.len() && #[trigger] hs[t].contains(y) && (#[trigger] coef(b(y), x)) is Some ==> t > 0 && hs[t - 1].contains(x)
    &&& forall|t: int, x: K, y: K| 0 <= t < cs.len() && #[trigger] cs[t].contains(x) && (#[trigger] coef(d(x), y)) is Some ==> (t + 1 < hs.len() ==> hs[t + 1].contains(y)) && forall|s: int| 0 <= s < cs.len() && #[trigger] cs[s].contains(y) ==> s == t + 1
    &&& forall|t: int, x: K, y: K| 0 <= t < cs.len() && t + 1 < hs.len() && #[trigger] cs[t].contains(x) && hs[t + 1].contains(y) ==> #[trigger] coef(d(x), y) == coef(b(y), x)
}
pub proof fn two_levels<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>, t: int)
    requires dual_levels(f, b, d, hs, cs), 0 <= t < cs.len(), t + 1 < hs.len(),
    ensures dual_cx(f, b, d, cs[t], hs[t + 1]),
{
    let (lo, hi) = (cs[t], hs[t + 1]);
    assert forall|i: int, j: int| 0 <= i < j < lo.len() implies rlt(f, #[trigger] lo[i], #[trigger] lo[j]) by { assert(rlt(f, cs[t][i], cs[t][j])); }
    assert forall|i: int, j: int| 0 <= i < j < hi.len() implies rlt(f, #[trigger] hi[i], #[trigger] hi[j]) by { assert(rlt(f, hs[t + 1][i], hs[t + 1][j])); }
    assert forall|x: K, y: K| lo.contains(x) && hi.contains(y) implies #[trigger] coef(d(x), y) == #[trigger] coef(b(y), x) by { assert(cs[t].contains(x) && hs[t + 1].contains(y)); }
    assert forall|x: K, y: K| hi.contains(y) && (#[trigger] coef(b(y), x)) is Some implies lo.contains(x) by { assert(hs[t + 1].contains(y)); assert(hs[t].contains(x)); assert(cs[t].contains(x)); }
    assert forall|x: K, y: K| lo.contains(x) && (#[trigger] coef(d(x), y)) is Some implies hi.contains(y) by { assert(cs[t].contains(x)); }
}
/// the list of a processed cell
pub proof fn level_of<K>(bs: Seq<Seq<K>>, x: K) -> (t: int)
    requires in_subs(bs, x),
    ensures 0 <= t < bs.len(), bs[t].contains(x),
{
    let (t, k) = choose|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() && #[trigger] bs[t][k] == x;
    assert(bs[t].contains(bs[t][k]));
    t
}
pub proof fn in_level<K>(bs: Seq<Seq<K>>, t: int, x: K)
    requires 0 <= t < bs.len(), bs[t].contains(x),
    ensures in_subs(bs, x),
{ let k = bs[t].index_of(x); assert(bs[t][k] == x); }
pub proof fn rev_has<K>(s: Seq<K>, x: K)
    ensures rev_seq(s).contains(Reverse(x)) <==> s.contains(x),
{
    if s.contains(x) { let k = s.index_of(x); assert(rev_seq(s)[s.len() - 1 - k] == Reverse(x)); }
    if rev_seq(s).contains(Reverse(x)) { let k = rev_seq(s).index_of(Reverse(x)); assert(s[s.len() - 1 - k] == x); }
}
pub proof fn h_has<K>(hs: Seq<Seq<K>>, x: K)
    ensures in_subs(hs.reverse(), x) <==> exists|t: int| 0 <= t < hs.len() && #[trigger] hs[t].contains(x),
{
    let bs = hs.reverse();
    if in_subs(bs, x) { let t = level_of(bs, x); assert(hs[hs.len() - 1 - t].contains(x)); }
    if exists|t: int| 0 <= t < hs.len() && #[trigger] hs[t].contains(x) { let t = choose|t: int| 0 <= t < hs.len() && #[trigger] hs[t].contains(x); assert(bs[hs.len() - 1 - t] == hs[t]); in_level(bs, hs.len() - 1 - t, x); }
}
pub proof fn c_has<K>(cs: Seq<Seq<K>>, x: K)
    ensures in_subs(rev_levels(cs), Reverse(x)) <==> exists|t: int| 0 <= t < cs.len() && #[trigger] cs[t].contains(x),
{
    let bs = rev_levels(cs);
    if in_subs(bs, Reverse(x)) { let t = level_of(bs, Reverse(x)); rev_has(cs[t], x); assert(cs[t].contains(x)); }
    if exists|t: int| 0 <= t < cs.len() && #[trigger] cs[t].contains(x) { let t = choose|t: int| 0 <= t < cs.len() && #[trigger] cs[t].contains(x); rev_has(cs[t], x); in_level(bs, t, Reverse(x)); }
}
/// the lead of a boundary of degree `t` has degree `t - 1`
pub proof fn h_lead<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>, w: spec_fn(K) -> Seq<(C, K)>, t: int, y: K, x: K)
    requires is_ring::<C>(), dual_levels(f, b, d, hs, cs), 0 <= t < hs.len(), hs[t].contains(y), valid(f, b, hs[t], w), coef(rcol(b, w)(y), x) is Some,
    ensures t > 0, hs[t - 1].contains(x),
{
    let j = hs[t].index_of(y);
    assert(tri(hs[t], w(hs[t][j]), j));
    let i = comb_row(b, hs[t], w(y), j, x);
    assert(hs[t].contains(hs[t][i]));
}
/// the lead of a coboundary of degree `t` has degree `t + 1`
pub proof fn c_lead<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>, vr: spec_fn(Reverse<K>) -> Seq<(C, Reverse<K>)>, t: int, x: K, y: K)
    requires is_ring::<C>(), dual_levels(f, b, d, hs, cs), 0 <= t < cs.len(), cs[t].contains(x), valid(rfilt(f), rmap(d), rev_seq(cs[t]), vr), coef(rcol(rmap(d), vr)(Reverse(x)), Reverse(y)) is Some,
    ensures t + 1 < hs.len() ==> hs[t + 1].contains(y), forall|s: int| 0 <= s < cs.len() && #[trigger] cs[s].contains(y) ==> s == t + 1,
{
    let lo = cs[t];
    assert forall|i: int, j: int| 0 <= i < j < lo.len() implies rlt(f, #[trigger] lo[i], #[trigger] lo[j]) by { assert(rlt(f, cs[t][i], cs[t][j])); }
    co_col(f, d, lo, vr, x);
    unrev_is(d, vr, x, y);
    let v = unrev(vr)(x);
    mulcol_coef(d, v, y);
    mulc_source(d, v, y);
    let k = choose|k: K| #[trigger] feeds(d, v, y, k);
    assert(coef(v, k) is Some);
    assert(cs[t].contains(k));
    assert(coef(d(k), y) is Some);
}
/// Homology and cohomology pair the same cells and leave the same cells unpaired, in the degrees both cover.
pub proof fn theorem_same_barcode<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>,
    cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>, ccols: Map<Reverse<K>, ReductionColumn<C, Reverse<K>>>, cess: Set<Reverse<K>>, cpar: Set<(Reverse<K>, Reverse<K>)>)
    requires
        is_field::<C>(), dual_levels(f, b, d, hs, cs),
        clear_ok(f, b, hs.reverse(), cols, ess, par), clear_ok(rfilt(f), rmap(d), rev_levels(cs), ccols, cess, cpar),
    ensures
        forall|t: int, x: K, y: K| 0 <= t < cs.len() && t + 1 < hs.len() && #[trigger] cs[t].contains(x) ==> (#[trigger] par.contains((x, y)) <==> cpar.contains((Reverse(y), Reverse(x)))),
        forall|t: int, x: K| 0 <= t < cs.len() && t + 1 < hs.len() && #[trigger] cs[t].contains(x) ==> (ess.contains(x) <==> cess.contains(Reverse(x))),
{
    field_ring::<C>();
    assert forall|t: int, x: K, y: K| 0 <= t < cs.len() && t + 1 < hs.len() && #[trigger] cs[t].contains(x) implies (#[trigger] par.contains((x, y)) <==> cpar.contains((Reverse(y), Reverse(x)))) by {
        same_pair(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar, t, x, y);
    }
    assert forall|t: int, x: K| 0 <= t < cs.len() && t + 1 < hs.len() && #[trigger] cs[t].contains(x) implies (ess.contains(x) <==> cess.contains(Reverse(x))) by {
        same_essential(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar, t, x);
    }
}
pub proof fn same_pair<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>,
    cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>, ccols: Map<Reverse<K>, ReductionColumn<C, Reverse<K>>>, cess: Set<Reverse<K>>, cpar: Set<(Reverse<K>, Reverse<K>)>, t: int, x: K, y: K)
    requires
        is_field::<C>(), dual_levels(f, b, d, hs, cs),
        clear_ok(f, b, hs.reverse(), cols, ess, par), clear_ok(rfilt(f), rmap(d), rev_levels(cs), ccols, cess, cpar),
        0 <= t < cs.len(), t + 1 < hs.len(), cs[t].contains(x),
    ensures par.contains((x, y)) <==> cpar.contains((Reverse(y), Reverse(x))), par.contains((x, y)) ==> hs[t + 1].contains(y),
{
    field_ring::<C>();
    let (w, vr) = (vcl(b, cols), vcl(rmap(d), ccols));
    let n = hs.len() as int;
    let (bs, br) = (hs.reverse(), rev_levels(cs));
    assert(bs[n - 1 - (t + 1)] == hs[t + 1] && br[t] == rev_seq(cs[t]));
    assert(valid(f, b, bs[n - 1 - (t + 1)], w) && valid(rfilt(f), rmap(d), br[t], vr));
    two_levels(f, b, d, hs, cs, t);
    theorem_same_pairs(f, b, d, cs[t], hs[t + 1], w, vr);
    c_has(cs, x); h_has(hs, y);
    let lead = is_lead(f, rcol(b, w)(y), x);
    assert(hs[t].contains(x));
    if in_subs(bs, y) && lead {
        let s = choose|s: int| 0 <= s < hs.len() && #[trigger] hs[s].contains(y);
        assert(bs[n - 1 - s] == hs[s]);
        assert(valid(f, b, bs[n - 1 - s], w));
        h_lead(f, b, d, hs, cs, w, s, y, x);
        assert(s - 1 == t);
        assert(hs[t + 1].contains(y));
    }
    assert(par.contains((x, y)) <==> in_subs(bs, y) && lead);
    assert(cpar.contains((Reverse(y), Reverse(x))) <==> in_subs(br, Reverse(x)) && is_lead(rfilt(f), rcol(rmap(d), vr)(Reverse(x)), Reverse(y)));
}
pub proof fn same_essential<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>,
    cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>, ccols: Map<Reverse<K>, ReductionColumn<C, Reverse<K>>>, cess: Set<Reverse<K>>, cpar: Set<(Reverse<K>, Reverse<K>)>, t: int, x: K)
    requires
        is_field::<C>(), dual_levels(f, b, d, hs, cs),
        clear_ok(f, b, hs.reverse(), cols, ess, par), clear_ok(rfilt(f), rmap(d), rev_levels(cs), ccols, cess, cpar),
        0 <= t < cs.len(), t + 1 < hs.len(), cs[t].contains(x),
    ensures ess.contains(x) <==> cess.contains(Reverse(x)),
{
    field_ring::<C>();
    let (w, vr) = (vcl(b, cols), vcl(rmap(d), ccols));
    let (bs, br) = (hs.reverse(), rev_levels(cs));
    let (a, ac) = (rcol(b, w), rcol(rmap(d), vr));
    let n = hs.len() as int;
    assert(hs[t].contains(x));
    c_has(cs, x); h_has(hs, x);
    assert(bs[n - 1 - t] == hs[t] && br[t] == rev_seq(cs[t]));
    assert(valid(f, b, bs[n - 1 - t], w) && valid(rfilt(f), rmap(d), br[t], vr));
    // a birth of a finite pair: the coboundary is not null
    assert(is_birth(par, x) <==> !is_null(ac(Reverse(x)))) by {
        if is_birth(par, x) {
            let y = choose|y: K| #[trigger] par.contains((x, y));
            same_pair(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar, t, x, y);
            lead_not_null(rfilt(f), ac(Reverse(x)), Reverse(y));
        }
        if !is_null(ac(Reverse(x))) {
            lead_exists(rfilt(f), ac(Reverse(x)));
            let y = choose|y: Reverse<K>| #[trigger] is_lead(rfilt(f), ac(Reverse(x)), y);
            assert(Reverse(y.0) == y);
            assert(cpar.contains((Reverse(y.0), Reverse(x))));
            same_pair(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar, t, x, y.0);
        }
    }
    // a death: the boundary is not null
    assert(is_birth(cpar, Reverse(x)) <==> !is_null(a(x))) by {
        if is_birth(cpar, Reverse(x)) {
            let z = choose|z: Reverse<K>| #[trigger] cpar.contains((Reverse(x), z));
            assert(Reverse(z.0) == z);
            assert(in_subs(br, z) && is_lead(rfilt(f), ac(z), Reverse(x)));
            c_has(cs, z.0);
            let s = choose|s: int| 0 <= s < cs.len() && #[trigger] cs[s].contains(z.0);
            assert(br[s] == rev_seq(cs[s]));
            assert(valid(rfilt(f), rmap(d), br[s], vr));
            c_lead(f, b, d, hs, cs, vr, s, z.0, x);
            assert(t == s + 1);
            same_pair(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar, s, z.0, x);
            lead_not_null(f, a(x), z.0);
        }
        if !is_null(a(x)) {
            lead_exists(f, a(x));
            let z = choose|z: K| #[trigger] is_lead(f, a(x), z);
            h_lead(f, b, d, hs, cs, w, t, x, z);
            assert(par.contains((z, x)));
            assert(cs[t - 1].contains(z));
            same_pair(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar, t - 1, z, x);
        }
    }
}

} // verus!
