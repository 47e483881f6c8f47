//! Ghost theory: every matrix has a reduction; hence the bars read off reduced coboundaries count the persistent
//! Betti numbers of the chain complex they are dual to.
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::models::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::reduce::*;
use crate::duality::*;
use crate::reduction::*;
use crate::standard::*;
use crate::clearing::*;
use crate::agree::*;
use crate::persist::*;
verus! {

// ---------------------------------------------------------------- sorted lists
pub open spec fn sorted<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, l: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> rlt(f, #[trigger] l[i], #[trigger] l[j]) }
pub proof fn sorted_distinct<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, l: Seq<K>)
    requires sorted(f, l),
    ensures distinct(l),
{ assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] l[i] != #[trigger] l[j] by { rlt_total(f, l[i], l[j]); } }
pub proof fn insert_sorted<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, l: Seq<K>, x: K) -> (r: Seq<K>)
    requires sorted(f, l), !l.contains(x),
    ensures sorted(f, r), forall|y: K| #[trigger] r.contains(y) <==> l.contains(y) || y == x,
    decreases l.len(),
{
    if l.len() == 0 {
        let r = l.push(x);
        assert(r[0] == x);
        r
    } else {
        let (n, e, l1) = (l.len() - 1, l.last(), l.drop_last());
        assert(l.contains(l[n]));
        assert forall|i: int, j: int| 0 <= i < j < l1.len() implies rlt(f, #[trigger] l1[i], #[trigger] l1[j]) by { assert(rlt(f, l[i], l[j])); }
        assert forall|y: K| #[trigger] l.contains(y) <==> l1.contains(y) || y == e by {
            if l.contains(y) { let k = l.index_of(y); if k < n { assert(l1[k] == y); } }
            if l1.contains(y) { let k = l1.index_of(y); assert(l[k] == y); }
        }
        rlt_total(f, x, e);
        if rlt(f, e, x) {
            let r = l.push(x);
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies rlt(f, #[trigger] r[i], #[trigger] r[j]) by {
                if j == l.len() { if i < n { assert(rlt(f, l[i], l[n])); rlt_trans(f, l[i], l[n], x); } } else { assert(rlt(f, l[i], l[j])); }
            }
            assert forall|y: K| #[trigger] r.contains(y) <==> l.contains(y) || y == x by {
                if r.contains(y) { let k = r.index_of(y); if k < l.len() { assert(l[k] == y); } }
                if l.contains(y) { let k = l.index_of(y); assert(r[k] == y); }
                assert(r[l.len() as int] == x);
            }
            r
        } else {
            let r1 = insert_sorted(f, l1, x);
            let r = r1.push(e);
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies rlt(f, #[trigger] r[i], #[trigger] r[j]) by {
                if j == r1.len() {
                    assert(r1.contains(r1[i]));
                    if r1[i] != x { let k = l1.index_of(r1[i]); assert(l1[k] == l[k]); assert(rlt(f, l[k], l[n])); }
                } else { assert(rlt(f, r1[i], r1[j])); }
            }
            assert forall|y: K| #[trigger] r.contains(y) <==> l.contains(y) || y == x by {
                if r.contains(y) { let k = r.index_of(y); if k < r1.len() { assert(r1[k] == y); } }
                if r1.contains(y) { let k = r1.index_of(y); assert(r[k] == y); }
                assert(r[r1.len() as int] == e);
            }
            r
        }
    }
}
/// finitely many elements, told apart by a key, can be listed in order
pub proof fn sorted_list<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, want: spec_fn(K) -> bool, key: spec_fn(K) -> int, k: nat) -> (l: Seq<K>)
    requires forall|x: K, y: K| #[trigger] key(x) == #[trigger] key(y) ==> x == y,
    ensures sorted(f, l), forall|x: K| #[trigger] l.contains(x) <==> want(x) && 0 <= key(x) < k,
    decreases k,
{
    if k == 0 { Seq::empty() }
    else {
        let l = sorted_list(f, want, key, (k - 1) as nat);
        if exists|x: K| want(x) && #[trigger] key(x) == k - 1 {
            let x = choose|x: K| want(x) && #[trigger] key(x) == k - 1;
            let r = insert_sorted(f, l, x);
            assert forall|y: K| #[trigger] r.contains(y) <==> want(y) && 0 <= key(y) < k by { if key(y) == k - 1 { assert(key(x) == key(y)); } }
            r
        } else { l }
    }
}

// ---------------------------------------------------------------- every matrix has a reduction
/// the first `n` columns are reduced
pub open spec fn valid_upto<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, d: spec_fn(R) -> Seq<(C, R)>, b: Seq<R>, v: spec_fn(R) -> Seq<(C, R)>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < n ==> crate::reduce::tri(b, v(#[trigger] b[j]), j)
    &&& forall|i: int, j: int, p: R| 0 <= i < n && 0 <= j < n && #[trigger] is_lead(f, rcol(d, v)(b[i]), p) && #[trigger] is_lead(f, rcol(d, v)(b[j]), p) ==> i == j
}
/// adding earlier columns until the lead is new
pub proof fn reduce_column<F: FiltrationValue, C: Invertible, R: BasisElement>(f: spec_fn(R) -> F, d: spec_fn(R) -> Seq<(C, R)>, b: Seq<R>, v: spec_fn(R) -> Seq<(C, R)>, n: int, s: Seq<(C, R)>) -> (t: Seq<(C, R)>)
    requires is_field::<C>(), distinct(b), 0 <= n < b.len(), valid_upto(f, d, b, v, n), crate::reduce::tri(b, s, n),
    ensures crate::reduce::tri(b, t, n), forall|i: int, p: R| 0 <= i < n && #[trigger] is_lead(f, rcol(d, v)(b[i]), p) ==> !is_lead(f, mulcol(d, t), p),
    decreases count_dom(f, mulcol(d, s), rows_upto(d, b, n + 1)),
{
    field_ring::<C>();
    let a = rcol(d, v);
    if exists|i: int, p: R| 0 <= i < n && #[trigger] is_lead(f, a(b[i]), p) && is_lead(f, mulcol(d, s), p) {
        let (i, p) = choose|i: int, p: R| 0 <= i < n && #[trigger] is_lead(f, a(b[i]), p) && is_lead(f, mulcol(d, s), p);
        let vj = v(b[i]);
        assert(crate::reduce::tri(b, v(b[i]), i));
        let r = mulcol(d, s);
        let (x, y) = (coef(r, p)->0, coef(mulcol(d, vj), p)->0);
        let m = <C as MulSpec<C>>::mul_spec(x.neg_spec(), y.inv_spec());
        let s2 = s + scale(vj, m);
        let r2 = r + scale(mulcol(d, vj), m);
        assert forall|q: R| #[trigger] coef(r2, q) == sadd(coef(r, q), smul(coef(mulcol(d, vj), q), Some(m))) by { coef_append(r, scale(mulcol(d, vj), m), q); coef_scale(mulcol(d, vj), m, q); }
        assert forall|k: R| #[trigger] coef(s2, k) == sadd(coef(s, k), smul(coef(vj, k), Some(m))) by { coef_append(s, scale(vj, m), k); coef_scale(vj, m, k); }
        assert(eqv(r, mulcol(d, s)));
        eliminate(f, d, r, s, r2, s2, vj, p, x, y);
        assert(coef(vj, b[n]) is None) by {
            if coef(vj, b[n]) is Some { let k = choose|k: int| 0 <= k <= i && k < b.len() && #[trigger] b[k] == b[n]; assert(b[k] != b[n]); }
        }
        assert(coef(s2, b[n]) is Some);
        assert forall|k: R| (#[trigger] coef(s2, k)) is Some implies upto(b, k, n) by {
            if coef(s, k) is None { assert(coef(vj, k) is Some); let q = choose|q: int| 0 <= q <= i && q < b.len() && #[trigger] b[q] == k; assert(b[q] == k); }
        }
        comb_rows(d, b, s, n, p);
        count_mono(f, r, r2, rows_upto(d, b, n + 1), p);
        count_congr(f, r2, mulcol(d, s2), rows_upto(d, b, n + 1));
        reduce_column(f, d, b, v, n, s2)
    } else { s }
}
pub proof fn reduce_upto<F: FiltrationValue, C: Invertible, R: BasisElement>(f: spec_fn(R) -> F, d: spec_fn(R) -> Seq<(C, R)>, b: Seq<R>, n: int) -> (v: spec_fn(R) -> Seq<(C, R)>)
    requires is_field::<C>(), distinct(b), 0 <= n <= b.len(),
    ensures valid_upto(f, d, b, v, n),
    decreases n,
{
    field_ring::<C>();
    if n == 0 { |x: R| Seq::empty() }
    else {
        let m = n - 1;
        let v = reduce_upto(f, d, b, m);
        let s = Seq::<(C, R)>::empty().push((C::one_spec(), b[m]));
        assert forall|x: R| (#[trigger] coef(s, x)) is Some <==> x == b[m] by { coef_push(Seq::<(C, R)>::empty(), (C::one_spec(), b[m]), x); coef_empty::<C, R>(x); }
        assert(crate::reduce::tri(b, s, m)) by { assert forall|x: R| (#[trigger] coef(s, x)) is Some implies upto(b, x, m) by { assert(b[m] == x); } }
        let t = reduce_column(f, d, b, v, m, s);
        let w = |x: R| if x == b[m] { t } else { v(x) };
        assert forall|j: int| 0 <= j < n implies crate::reduce::tri(b, w(#[trigger] b[j]), j) by { if j < m { assert(b[j] != b[m]); assert(crate::reduce::tri(b, v(b[j]), j)); } }
        assert forall|i: int, j: int, p: R| 0 <= i < n && 0 <= j < n && #[trigger] is_lead(f, rcol(d, w)(b[i]), p) && #[trigger] is_lead(f, rcol(d, w)(b[j]), p) implies i == j by {
            if i < m { assert(b[i] != b[m]); assert(is_lead(f, rcol(d, v)(b[i]), p)); }
            if j < m { assert(b[j] != b[m]); assert(is_lead(f, rcol(d, v)(b[j]), p)); }
        }
        w
    }
}
pub proof fn reduction_exists<F: FiltrationValue, C: Invertible, R: BasisElement>(f: spec_fn(R) -> F, d: spec_fn(R) -> Seq<(C, R)>, b: Seq<R>) -> (v: spec_fn(R) -> Seq<(C, R)>)
    requires is_field::<C>(), distinct(b),
    ensures valid(f, d, b, v),
{ reduce_upto(f, d, b, b.len() as int) }

// ---------------------------------------------------------------- the bars of a cochain complex
pub open spec fn colives<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, cpar: Set<(Reverse<K>, Reverse<K>)>, x: K, q: F) -> bool { exists|y: K| #[trigger] cpar.contains((Reverse(y), Reverse(x))) && !leq(f(y), q) }
/// as `bars_at`, from the diagram of the reversed coboundary
pub open spec fn cobars_at<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, lo: spec_fn(K) -> bool, cess: Set<Reverse<K>>, cpar: Set<(Reverse<K>, Reverse<K>)>, p: F, q: F) -> spec_fn(K) -> bool {
    |x: K| lo(x) && leq(f(x), p) && (cess.contains(Reverse(x)) || colives(f, cpar, x, q))
}
/// cells of degree `t`: a cell that kills, and a cell whose boundary vanishes, in terms of the coboundary's diagram
pub proof fn cobirths<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>,
    ccols: Map<Reverse<K>, ReductionColumn<C, Reverse<K>>>, cess: Set<Reverse<K>>, cpar: Set<(Reverse<K>, Reverse<K>)>, t: int, v: spec_fn(K) -> Seq<(C, K)>, x: K)
    requires
        is_field::<C>(), dual_levels(f, b, d, hs, cs), clear_ok(rfilt(f), rmap(d), rev_levels(cs), ccols, cess, cpar),
        0 <= t < cs.len(), t + 1 < hs.len(), hs.len() >= cs.len(), valid(f, b, hs[t], v), hs[t].contains(x),
    ensures is_null(rcol(b, v)(x)) <==> !is_birth(cpar, Reverse(x)),
{
    field_ring::<C>();
    let vr = vcl(rmap(d), ccols);
    let br = rev_levels(cs);
    let (a, ac) = (rcol(b, v), rcol(rmap(d), vr));
    if is_birth(cpar, Reverse(x)) {
        let z = choose|z: Reverse<K>| #[trigger] cpar.contains((Reverse(x), z));
        assert(Reverse(z.0) == z);
        assert(in_subs(br, z) && is_lead(rfilt(f), ac(z), Reverse(x)));
        c_has(cs, z.0);
        let s = choose|s: int| 0 <= s < cs.len() && #[trigger] cs[s].contains(z.0);
        assert(br[s] == rev_seq(cs[s]));
        assert(valid(rfilt(f), rmap(d), br[s], vr));
        assert(cs[t].contains(x));
        c_lead(f, b, d, hs, cs, vr, s, z.0, x);
        assert(t == s + 1);
        two_levels(f, b, d, hs, cs, s);
        theorem_same_pairs(f, b, d, cs[s], hs[t], v, vr);
        assert(is_lead(f, a(x), z.0));
        lead_not_null(f, a(x), z.0);
    }
    if !is_null(a(x)) {
        lead_exists(f, a(x));
        let z = choose|z: K| #[trigger] is_lead(f, a(x), z);
        h_lead(f, b, d, hs, cs, v, t, x, z);
        assert(cs[t - 1].contains(z));
        assert(br[t - 1] == rev_seq(cs[t - 1]));
        assert(valid(rfilt(f), rmap(d), br[t - 1], vr));
        two_levels(f, b, d, hs, cs, t - 1);
        theorem_same_pairs(f, b, d, cs[t - 1], hs[t], v, vr);
        assert(is_lead(rfilt(f), ac(Reverse(z)), Reverse(x)));
        c_has(cs, z);
        assert(cpar.contains((Reverse(x), Reverse(z))));
    }
}
/// The diagram of the clearing algorithm on the reversed coboundary counts the persistent Betti numbers of the chain
/// complex.
pub proof fn theorem_coclearing_betti<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, d: spec_fn(K) -> Seq<(C, K)>, hs: Seq<Seq<K>>, cs: Seq<Seq<K>>,
    ccols: Map<Reverse<K>, ReductionColumn<C, Reverse<K>>>, cess: Set<Reverse<K>>, cpar: Set<(Reverse<K>, Reverse<K>)>, t: int, p: F, q: F)
    requires
        is_field::<C>(), dual_levels(f, b, d, hs, cs), clear_ok(rfilt(f), rmap(d), rev_levels(cs), ccols, cess, cpar),
        0 <= t < cs.len(), t + 1 < hs.len(), hs.len() >= cs.len(), forall|y: K| hs[t + 1].contains(y) ==> is_null(mulcol(b, #[trigger] b(y))),
    ensures persistent_betti(f, b, in_list(hs[t]), in_list(hs[t + 1]), cobars_at(f, in_list(hs[t]), cess, cpar, p, q), p, q),
{
    field_ring::<C>();
    let (lo, hi) = (hs[t], hs[t + 1]);
    let vr = vcl(rmap(d), ccols);
    let br = rev_levels(cs);
    let ac = rcol(rmap(d), vr);
    assert forall|i: int, j: int| 0 <= i < j < lo.len() implies rlt(f, #[trigger] lo[i], #[trigger] lo[j]) by { assert(rlt(f, hs[t][i], hs[t][j])); }
    assert forall|i: int, j: int| 0 <= i < j < hi.len() implies rlt(f, #[trigger] hi[i], #[trigger] hi[j]) by { assert(rlt(f, hs[t + 1][i], hs[t + 1][j])); }
    assert forall|x: K, y: K| hi.contains(y) && (#[trigger] coef(b(y), x)) is Some implies lo.contains(x) by { assert(hs[t + 1].contains(y)); }
    assert(two_deg(f, b, lo, hi));
    sorted_distinct(f, lo); sorted_distinct(f, hi);
    let v = reduction_exists(f, b, lo);
    let w = reduction_exists(f, b, hi);
    theorem_persistence(f, b, lo, hi, v, w, p, q);
    two_levels(f, b, d, hs, cs, t);
    assert(br[t] == rev_seq(cs[t]));
    assert(valid(rfilt(f), rmap(d), br[t], vr));
    theorem_same_pairs(f, b, d, cs[t], hi, w, vr);
    let (al, ba) = (alive(f, b, lo, hi, v, w, p, q), cobars_at(f, in_list(lo), cess, cpar, p, q));
    assert forall|x: K| #[trigger] al(x) == ba(x) by {
        if lo.contains(x) {
            assert(hs[t].contains(x) && cs[t].contains(x));
            c_has(cs, x);
            cobirths(f, b, d, hs, cs, ccols, cess, cpar, t, v, x);
            let s = ac(Reverse(x));
            assert forall|y: K| #[trigger] kills(f, b, hi, w, x, y) <==> cpar.contains((Reverse(y), Reverse(x))) by {
                assert(kills(f, b, hi, w, x, y) <==> is_lead(rfilt(f), ac(Reverse(x)), Reverse(y)));
            }
            if colives(f, cpar, x, q) {
                let y = choose|y: K| #[trigger] cpar.contains((Reverse(y), Reverse(x))) && !leq(f(y), q);
                assert(kills(f, b, hi, w, x, y));
                killing_col(f, b, lo, hi, w, x, y);
                let i = lo.index_of(x);
                assert(lo[i] == x);
                cycle_null(f, b, lo, v, rcol(b, w)(y), i);
                assert forall|y2: K| #[trigger] kills(f, b, hi, w, x, y2) implies !leq(f(y2), q) by { lead_unique(rfilt(f), s, Reverse(y), Reverse(y2)); }
            }
            if al(x) && !cess.contains(Reverse(x)) {
                assert(!is_null(s));
                lead_exists(rfilt(f), s);
                let y = choose|y: Reverse<K>| #[trigger] is_lead(rfilt(f), s, y);
                assert(Reverse(y.0) == y);
                assert(cpar.contains((Reverse(y.0), Reverse(x))));
                assert(kills(f, b, hi, w, x, y.0));
            }
            if cess.contains(Reverse(x)) {
                assert forall|y: K| #[trigger] kills(f, b, hi, w, x, y) implies !leq(f(y), q) by { lead_not_null(rfilt(f), s, Reverse(y)); }
            }
        }
    }
    assert(al =~= ba);
    assert(image_basis(f, b, in_list(lo), in_list(hi), zcol(f, b, hi, v, w), ba, p, q));
}

} // verus!
