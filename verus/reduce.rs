//! Ghost theory of column reduction: leading rows, triangular decompositions, pairings.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
verus! {

// ------------------------------------------------------------ leading rows

/// the order of rows: filtration value, then row
pub open spec fn rlt<F: FiltrationValue, R: BasisElement>(f: spec_fn(R) -> F, a: R, b: R) -> bool { key_lt(f(a), a, f(b), b) }
/// `p` is the greatest row with non-zero coefficient
pub open spec fn is_lead<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, p: R) -> bool {
    coef(s, p) is Some && forall|x: R| (#[trigger] coef(s, x)) is Some ==> x == p || rlt(f, x, p)
}
pub open spec fn is_null<C: NonZeroCoefficient, R>(s: Seq<(C, R)>) -> bool { forall|x: R| (#[trigger] coef(s, x)) is None }

pub proof fn rlt_total<F: FiltrationValue, R: BasisElement>(f: spec_fn(R) -> F, a: R, b: R)
    ensures
        a == b || rlt(f, a, b) || rlt(f, b, a),
        !(rlt(f, a, b) && rlt(f, b, a)), !rlt(f, a, a),
{ F::lawful_filt(); R::lawful_elem(); key_total(f(a), a, f(b), b); key_total(f(a), a, f(a), a); }
pub proof fn rlt_trans<F: FiltrationValue, R: BasisElement>(f: spec_fn(R) -> F, a: R, b: R, c: R)
    requires rlt(f, a, b), rlt(f, b, c),
    ensures rlt(f, a, c),
{ F::lawful_filt(); R::lawful_elem(); key_trans(f(a), a, f(b), b, f(c), c); }

pub proof fn lead_unique<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, p: R, q: R)
    requires is_lead(f, s, p), is_lead(f, s, q),
    ensures p == q,
{ assert(coef(s, p) is Some && coef(s, q) is Some); rlt_total(f, p, q); }
pub proof fn lead_not_null<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, p: R)
    requires is_lead(f, s, p),
    ensures !is_null(s),
{ assert(coef(s, p) is Some); }
pub proof fn lead_congr<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, t: Seq<(C, R)>)
    requires eqv(s, t),
    ensures forall|p: R| #[trigger] is_lead(f, s, p) == is_lead(f, t, p), is_null(s) == is_null(t),
{
    assert forall|p: R| #[trigger] is_lead(f, s, p) == is_lead(f, t, p) by {
        assert(coef(s, p) == coef(t, p));
        if is_lead(f, s, p) { assert forall|x: R| (#[trigger] coef(t, x)) is Some implies x == p || rlt(f, x, p) by { assert(coef(s, x) == coef(t, x)); } }
        if is_lead(f, t, p) { assert forall|x: R| (#[trigger] coef(s, x)) is Some implies x == p || rlt(f, x, p) by { assert(coef(s, x) == coef(t, x)); } }
    }
    if is_null(s) { assert forall|x: R| (#[trigger] coef(t, x)) is None by { assert(coef(s, x) == coef(t, x)); } }
    if is_null(t) { assert forall|x: R| (#[trigger] coef(s, x)) is None by { assert(coef(s, x) == coef(t, x)); } }
}
pub proof fn lead_exists<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>)
    requires is_ring::<C>(),
    ensures is_null(s) || exists|p: R| #[trigger] is_lead(f, s, p),
    decreases s.len(),
{
    if s.len() == 0 {
        assert forall|x: R| (#[trigger] coef(s, x)) is None by {}
    } else {
        let k = s.last().1;
        let t = drop_row(s, k);
        assert(s[s.len() - 1].1 == k); assert(has_row(s, k));
        drop_row_coef(s, k, k);
        lead_exists(f, t);
        assert forall|x: R| (#[trigger] coef(s, x)) == (if x == k { coef(s, k) } else { coef(t, x) }) by { drop_row_coef(s, k, x); }
        assert(coef(t, k) is None);
        if is_null(t) {
            if coef(s, k) is Some {
                assert forall|x: R| (#[trigger] coef(s, x)) is Some implies x == k || rlt(f, x, k) by { if x != k { assert(coef(t, x) is None); } }
                assert(is_lead(f, s, k));
            } else {
                assert forall|x: R| (#[trigger] coef(s, x)) is None by { if x != k { assert(coef(t, x) is None); } }
            }
        } else {
            let q = choose|p: R| #[trigger] is_lead(f, t, p);
            assert(coef(t, q) is Some);
            rlt_total(f, k, q);
            let m = if coef(s, k) is Some && rlt(f, q, k) { k } else { q };
            assert forall|x: R| (#[trigger] coef(s, x)) is Some implies x == m || rlt(f, x, m) by {
                if x != k { assert(coef(t, x) is Some); if x != q && m == k { rlt_trans(f, x, q, k); } }
            }
            assert(coef(s, q) is Some);
            assert(is_lead(f, s, m));
        }
    }
}

// ------------------------------------------------------------ sums and multiples

/// lead of a sum of two columns whose leads differ (or of which one is null)
pub proof fn lead_sum<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, t: Seq<(C, R)>, u: Seq<(C, R)>, p: R, q: R)
    requires
        forall|x: R| #[trigger] coef(u, x) == sadd(coef(s, x), coef(t, x)),
        is_lead(f, s, p), is_lead(f, t, q), rlt(f, q, p),
    ensures is_lead(f, u, p),
{
    rlt_total(f, p, q);
    assert(coef(t, p) is None) by { if coef(t, p) is Some { assert(p == q || rlt(f, p, q)); } }
    assert(coef(u, p) == sadd(coef(s, p), coef(t, p)));
    assert forall|x: R| (#[trigger] coef(u, x)) is Some implies x == p || rlt(f, x, p) by {
        if coef(s, x) is None { assert(coef(t, x) is Some); if x != q { rlt_trans(f, x, q, p); } }
    }
}
pub proof fn lead_scaled<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, t: Seq<(C, R)>, c: C)
    requires is_scaled(s, t, c),
    ensures forall|p: R| #[trigger] is_lead(f, s, p) == is_lead(f, t, p), is_null(s) == is_null(t),
        forall|x: R| (#[trigger] coef(s, x)) is Some <==> coef(t, x) is Some,
{
    assert forall|x: R| (#[trigger] coef(s, x)) is Some <==> coef(t, x) is Some by { assert(coef(s, x) == smul(coef(t, x), Some(c))); }
    assert forall|p: R| #[trigger] is_lead(f, s, p) == is_lead(f, t, p) by {
        assert(coef(s, p) is Some <==> coef(t, p) is Some);
        if is_lead(f, s, p) { assert forall|x: R| (#[trigger] coef(t, x)) is Some implies x == p || rlt(f, x, p) by { assert(coef(s, x) is Some); } }
        if is_lead(f, t, p) { assert forall|x: R| (#[trigger] coef(s, x)) is Some implies x == p || rlt(f, x, p) by { assert(coef(t, x) is Some); } }
    }
    if is_null(s) { assert forall|x: R| (#[trigger] coef(t, x)) is None by { assert(!(coef(s, x) is Some)); } }
    if is_null(t) { assert forall|x: R| (#[trigger] coef(s, x)) is None by { assert(!(coef(t, x) is Some)); } }
}

/// what the columns `a` combined by `t` have as lead: the lead of one of its non-null members
pub open spec fn comb_has<F: FiltrationValue, C: NonZeroCoefficient, K, R: BasisElement>(f: spec_fn(R) -> F, a: spec_fn(K) -> Seq<(C, R)>, t: Seq<(C, K)>, s: Seq<(C, R)>, k: K, q: R) -> bool {
    coef(t, k) is Some && is_lead(f, a(k), q) && is_lead(f, s, q)
}
pub open spec fn distinct_leads_in<F: FiltrationValue, C: NonZeroCoefficient, K, R: BasisElement>(f: spec_fn(R) -> F, a: spec_fn(K) -> Seq<(C, R)>, t: Seq<(C, K)>) -> bool {
    forall|k: K, l: K, q: R| coef(t, k) is Some && coef(t, l) is Some && #[trigger] is_lead(f, a(k), q) && #[trigger] is_lead(f, a(l), q) ==> k == l
}
pub proof fn comb_lead<F: FiltrationValue, C: NonZeroCoefficient, K, R: BasisElement>(f: spec_fn(R) -> F, a: spec_fn(K) -> Seq<(C, R)>, t: Seq<(C, K)>)
    requires is_ring::<C>(), distinct_leads_in(f, a, t),
    ensures
        is_null(mulcol(a, t)) ==> forall|k: K| (#[trigger] coef(t, k)) is Some ==> is_null(a(k)),
        !is_null(mulcol(a, t)) ==> exists|k: K, q: R| #[trigger] comb_has(f, a, t, mulcol(a, t), k, q),
    decreases t.len(),
{
    let s = mulcol(a, t);
    if t.len() == 0 {
        assert forall|x: R| (#[trigger] coef(s, x)) is None by {}
        assert forall|k: K| (#[trigger] coef(t, k)) is Some implies is_null(a(k)) by {}
    } else {
        let k = t.last().1;
        let t2 = drop_row(t, k);
        let s2 = mulcol(a, t2);
        assert(t[t.len() - 1].1 == k); assert(has_row(t, k));
        drop_row_coef(t, k, k);
        assert forall|l: K| (#[trigger] coef(t2, l)) == (if l == k { None } else { coef(t, l) }) by { drop_row_coef(t, k, l); }
        comb_lead(f, a, t2);
        assert forall|x: R| (#[trigger] coef(s, x)) == sadd(coef(s2, x), smul(coef(a(k), x), coef(t, k))) by {
            mulc_drop(a, t, k, x); mulcol_coef(a, t, x); mulcol_coef(a, t2, x);
        }
        if coef(t, k) is None || is_null(a(k)) {
            assert(eqv(s, s2)) by { assert forall|x: R| #[trigger] coef(s, x) == coef(s2, x) by { assert(coef(t, k) is None || coef(a(k), x) is None); } }
            lead_congr(f, s, s2);
            if is_null(s) {
                assert forall|l: K| (#[trigger] coef(t, l)) is Some implies is_null(a(l)) by { if l != k { assert(coef(t2, l) is Some); } }
            } else {
                let (l, q) = choose|l: K, q: R| #[trigger] comb_has(f, a, t2, s2, l, q);
                assert(coef(t2, l) is Some);
                assert(comb_has(f, a, t, s, l, q));
            }
        } else {
            let c = coef(t, k)->0;
            let u = scale(a(k), c);
            assert(is_scaled(u, a(k), c)) by { assert forall|x: R| #[trigger] coef(u, x) == smul(coef(a(k), x), Some(c)) by { coef_scale(a(k), c, x); } }
            lead_scaled(f, u, a(k), c);
            lead_exists(f, a(k));
            let q = choose|p: R| #[trigger] is_lead(f, a(k), p);
            assert(is_lead(f, u, q));
            assert forall|x: R| (#[trigger] coef(s, x)) == sadd(coef(s2, x), coef(u, x)) by { assert(coef(u, x) == smul(coef(a(k), x), Some(c))); }
            if is_null(s2) {
                assert(eqv(s, u)) by { assert forall|x: R| #[trigger] coef(s, x) == coef(u, x) by { assert(coef(s2, x) is None); } }
                lead_congr(f, s, u);
                assert(comb_has(f, a, t, s, k, q));
            } else {
                let (l, q2) = choose|l: K, q2: R| #[trigger] comb_has(f, a, t2, s2, l, q2);
                assert(coef(t2, l) is Some);
                assert(l != k);
                assert(q != q2) by { if q == q2 { assert(is_lead(f, a(k), q) && is_lead(f, a(l), q)); } }
                rlt_total(f, q, q2);
                if rlt(f, q, q2) {
                    lead_sum(f, s2, u, s, q2, q);
                    assert(comb_has(f, a, t, s, l, q2));
                } else {
                    assert forall|x: R| (#[trigger] coef(s, x)) == sadd(coef(u, x), coef(s2, x)) by { sadd_comm(coef(s2, x), coef(u, x)); }
                    lead_sum(f, u, s2, s, q, q2);
                    assert(comb_has(f, a, t, s, k, q));
                }
            }
            if is_null(s) { assert(exists|k: K, q: R| #[trigger] comb_has(f, a, t, s, k, q)); let (l, q3) = choose|l: K, q3: R| #[trigger] comb_has(f, a, t, s, l, q3); lead_not_null(f, s, q3); }
        }
    }
}

/// D (V t) == (D V) t
pub proof fn mulc_assoc<C: NonZeroCoefficient, K, L, R>(d: spec_fn(L) -> Seq<(C, R)>, v: spec_fn(K) -> Seq<(C, L)>, t: Seq<(C, K)>, r: R)
    requires is_ring::<C>(),
    ensures mulc(d, mulcol(v, t), r) == mulc(|k: K| mulcol(d, v(k)), t, r),
    decreases t.len(),
{
    let dv = |k: K| mulcol(d, v(k));
    if t.len() > 0 {
        let (t1, e) = (t.drop_last(), t.last());
        mulc_assoc(d, v, t1, r);
        mulc_append(d, mulcol(v, t1), scale(v(e.1), e.0), r);
        mulc_scale(d, v(e.1), e.0, r);
        mulcol_coef(d, v(e.1), r);
        assert(dv(e.1) == mulcol(d, v(e.1)));
    }
}
pub proof fn mulcol_assoc<C: NonZeroCoefficient, K, L, R>(d: spec_fn(L) -> Seq<(C, R)>, v: spec_fn(K) -> Seq<(C, L)>, t: Seq<(C, K)>)
    requires is_ring::<C>(),
    ensures eqv(mulcol(d, mulcol(v, t)), mulcol(|k: K| mulcol(d, v(k)), t)),
{
    let dv = |k: K| mulcol(d, v(k));
    assert forall|r: R| #[trigger] coef(mulcol(d, mulcol(v, t)), r) == coef(mulcol(dv, t), r) by {
        mulc_assoc(d, v, t, r); mulcol_coef(d, mulcol(v, t), r); mulcol_coef(dv, t, r);
    }
}
pub proof fn mulcol_congr<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, s: Seq<(C, K)>, t: Seq<(C, K)>)
    requires is_ring::<C>(), eqv(s, t),
    ensures eqv(mulcol(a, s), mulcol(a, t)),
{
    assert forall|r: R| #[trigger] coef(mulcol(a, s), r) == coef(mulcol(a, t), r) by { mulc_congr(a, s, t, r); mulcol_coef(a, s, r); mulcol_coef(a, t, r); }
}
/// zero columns combine to zero
pub proof fn mulc_null<C: NonZeroCoefficient, K, R>(a: spec_fn(K) -> Seq<(C, R)>, t: Seq<(C, K)>, r: R)
    requires is_ring::<C>(), forall|k: K| (#[trigger] coef(t, k)) is Some ==> coef(a(k), r) is None,
    ensures mulc(a, t, r) is None,
    decreases t.len(),
{
    if t.len() > 0 {
        let k = t.last().1;
        let t2 = drop_row(t, k);
        assert(t[t.len() - 1].1 == k); assert(has_row(t, k));
        drop_row_coef(t, k, k);
        assert forall|l: K| (#[trigger] coef(t2, l)) is Some implies coef(a(l), r) is None by { drop_row_coef(t, k, l); }
        mulc_null(a, t2, r);
        mulc_drop(a, t, k, r);
    }
}

// ------------------------------------------------------------ triangular columns

/// `x` is one of the first elements of `b`, up to position `j`
pub open spec fn upto<R>(b: Seq<R>, x: R, j: int) -> bool { exists|k: int| 0 <= k <= j && k < b.len() && #[trigger] b[k] == x }
pub open spec fn supp_upto<C: NonZeroCoefficient, R>(b: Seq<R>, s: Seq<(C, R)>, j: int) -> bool { forall|x: R| (#[trigger] coef(s, x)) is Some ==> upto(b, x, j) }
/// column `j` of a triangular matrix: non-zero at its own element, otherwise only earlier elements
pub open spec fn tri<C: NonZeroCoefficient, R>(b: Seq<R>, s: Seq<(C, R)>, j: int) -> bool { coef(s, b[j]) is Some && supp_upto(b, s, j) }
pub open spec fn distinct<R>(b: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] != #[trigger] b[j] }
/// columns of R = D V
pub open spec fn rcol<C: NonZeroCoefficient, K, L, R>(d: spec_fn(L) -> Seq<(C, R)>, v: spec_fn(K) -> Seq<(C, L)>) -> spec_fn(K) -> Seq<(C, R)> { |k: K| mulcol(d, v(k)) }
/// the non-zero columns of R = D V over `b` have pairwise distinct leads
pub open spec fn distinct_leads<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement, K>(f: spec_fn(R) -> F, a: spec_fn(K) -> Seq<(C, R)>, b: Seq<K>) -> bool {
    forall|i: int, j: int, p: R| 0 <= i < b.len() && 0 <= j < b.len() && #[trigger] is_lead(f, a(b[i]), p) && #[trigger] is_lead(f, a(b[j]), p) ==> i == j
}
/// a valid decomposition over the ordered basis `b`
pub open spec fn valid<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, d: spec_fn(R) -> Seq<(C, R)>, b: Seq<R>, v: spec_fn(R) -> Seq<(C, R)>) -> bool {
    &&& distinct(b)
    &&& forall|j: int| 0 <= j < b.len() ==> tri(b, v(#[trigger] b[j]), j)
    &&& distinct_leads(f, rcol(d, v), b)
}

/// rewriting a combination of the first elements of `b` in terms of the columns of a triangular matrix
pub proof fn change<C: Invertible, R>(b: Seq<R>, v: spec_fn(R) -> Seq<(C, R)>, s: Seq<(C, R)>, j: int) -> (t: Seq<(C, R)>)
    requires
        is_field::<C>(), distinct(b), -1 <= j < b.len(),
        forall|k: int| 0 <= k < b.len() ==> tri(b, v(#[trigger] b[k]), k),
        supp_upto(b, s, j),
    ensures
        supp_upto(b, t, j),
        eqv(mulcol(v, t), s),
        0 <= j ==> (coef(s, b[j]) is Some <==> coef(t, b[j]) is Some),
    decreases j + 1,
{
    field_ring::<C>();
    if j < 0 {
        assert forall|x: R| #[trigger] coef(mulcol(v, Seq::<(C, R)>::empty()), x) == coef(s, x) by { if coef(s, x) is Some { assert(upto(b, x, j)); } }
        Seq::empty()
    } else if coef(s, b[j]) is None {
        assert forall|x: R| (#[trigger] coef(s, x)) is Some implies upto(b, x, j - 1) by {
            let k = choose|k: int| 0 <= k <= j && k < b.len() && #[trigger] b[k] == x; assert(b[k] == x && k != j);
        }
        let t = change(b, v, s, j - 1);
        assert forall|x: R| (#[trigger] coef(t, x)) is Some implies upto(b, x, j) by {
            let k = choose|k: int| 0 <= k <= j - 1 && k < b.len() && #[trigger] b[k] == x; assert(b[k] == x);
        }
        if coef(t, b[j]) is Some { let k = choose|k: int| 0 <= k <= j - 1 && k < b.len() && #[trigger] b[k] == b[j]; assert(b[k] != b[j]); }
        t
    } else {
        let vj = v(b[j]);
        assert(tri(b, vj, j));
        let x0 = coef(s, b[j])->0;
        let d0 = coef(vj, b[j])->0;
        let m = <C as MulSpec<C>>::mul_spec(x0.neg_spec(), d0.inv_spec());
        selim(x0, d0);
        let s2 = s + scale(vj, m);
        assert forall|x: R| (#[trigger] coef(s2, x)) == sadd(coef(s, x), smul(coef(vj, x), Some(m))) by { coef_append(s, scale(vj, m), x); coef_scale(vj, m, x); }
        assert forall|x: R| (#[trigger] coef(s2, x)) is Some implies upto(b, x, j - 1) by {
            assert(coef(s, x) is Some || coef(vj, x) is Some);
            assert(upto(b, x, j));
            let k = choose|k: int| 0 <= k <= j && k < b.len() && #[trigger] b[k] == x; assert(b[k] == x);
            assert(k != j);
        }
        let t2 = change(b, v, s2, j - 1);
        let n = m.neg_spec();
        let t = t2.push((n, b[j]));
        sneg(m);
        assert forall|x: R| (#[trigger] coef(t, x)) == sadd(coef(t2, x), if b[j] == x { Some(n) } else { None::<C> }) by { coef_push(t2, (n, b[j]), x); }
        assert(coef(t2, b[j]) is None) by {
            if coef(t2, b[j]) is Some { let k = choose|k: int| 0 <= k <= j - 1 && k < b.len() && #[trigger] b[k] == b[j]; assert(b[k] != b[j]); }
        }
        assert forall|x: R| (#[trigger] coef(t, x)) is Some implies upto(b, x, j) by {
            if x == b[j] { assert(b[j] == x); } else { assert(upto(b, x, j - 1)); let k = choose|k: int| 0 <= k <= j - 1 && k < b.len() && #[trigger] b[k] == x; assert(b[k] == x); }
        }
        assert forall|x: R| #[trigger] coef(mulcol(v, t), x) == coef(s, x) by {
            assert(t.drop_last() =~= t2);
            mulcol_coef(v, t, x); mulcol_coef(v, t2, x);
            assert(coef(mulcol(v, t2), x) == coef(s2, x));
            let y = coef(vj, x);
            assert(mulc(v, t, x) == sadd(coef(s2, x), smul(y, Some(n))));
            sadd_assoc(coef(s, x), smul(y, Some(m)), smul(y, Some(n)));
            smul_dist(Some(m), Some(n), y);
        }
        assert(coef(t, b[j]) == sadd(coef(t2, b[j]), Some(n)));
        t
    }
}

/// Theorem A: the leads of a valid decomposition do not depend on the decomposition.
pub proof fn leads_agree<F: FiltrationValue, C: Invertible, R: BasisElement>(f: spec_fn(R) -> F, d: spec_fn(R) -> Seq<(C, R)>, b: Seq<R>, v: spec_fn(R) -> Seq<(C, R)>, w: spec_fn(R) -> Seq<(C, R)>, j: int, p: R)
    requires is_field::<C>(), valid(f, d, b, v), valid(f, d, b, w), 0 <= j < b.len(), is_lead(f, rcol(d, v)(b[j]), p),
    ensures is_lead(f, rcol(d, w)(b[j]), p),
    decreases j,
{
    field_ring::<C>();
    let s = v(b[j]);
    assert(tri(b, s, j));
    let t = change(b, w, s, j);
    mulcol_assoc(d, w, t);
    mulcol_congr(d, mulcol(w, t), s);
    let a = rcol(d, w);
    let dw = |k: R| mulcol(d, w(k));
    assert(a =~= dw);
    assert(eqv(mulcol(d, s), mulcol(a, t))) by {
        assert forall|r: R| #[trigger] coef(mulcol(d, s), r) == coef(mulcol(a, t), r) by {
            assert(coef(mulcol(d, mulcol(w, t)), r) == coef(mulcol(d, s), r));
            assert(coef(mulcol(d, mulcol(w, t)), r) == coef(mulcol(dw, t), r));
        }
    }
    lead_congr(f, mulcol(d, s), mulcol(a, t));
    assert(is_lead(f, mulcol(a, t), p));
    lead_not_null(f, mulcol(a, t), p);
    supp_distinct(f, a, b, t, j);
    comb_lead(f, a, t);
    let (k, q) = choose|k: R, q: R| #[trigger] comb_has(f, a, t, mulcol(a, t), k, q);
    lead_unique(f, mulcol(a, t), p, q);
    assert(coef(t, k) is Some);
    assert(upto(b, k, j));
    let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
    if i < j {
        leads_agree(f, d, b, w, v, i, p);
        assert(is_lead(f, rcol(d, v)(b[i]), p) && is_lead(f, rcol(d, v)(b[j]), p));
    }
}
pub proof fn supp_distinct<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement, K>(f: spec_fn(R) -> F, a: spec_fn(K) -> Seq<(C, R)>, b: Seq<K>, t: Seq<(C, K)>, j: int)
    requires distinct_leads(f, a, b), supp_upto(b, t, j),
    ensures distinct_leads_in(f, a, t),
{
    assert forall|k: K, l: K, q: R| coef(t, k) is Some && coef(t, l) is Some && #[trigger] is_lead(f, a(k), q) && #[trigger] is_lead(f, a(l), q) implies k == l by {
        assert(upto(b, k, j) && upto(b, l, j));
        let i1 = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
        let i2 = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == l;
        assert(is_lead(f, a(b[i1]), q) && is_lead(f, a(b[i2]), q));
    }
}
/// Theorem B: a cycle whose last element is `b[i]` forces column `i` of R to vanish.
pub proof fn cycle_null<F: FiltrationValue, C: Invertible, R: BasisElement>(f: spec_fn(R) -> F, d: spec_fn(R) -> Seq<(C, R)>, b: Seq<R>, v: spec_fn(R) -> Seq<(C, R)>, s: Seq<(C, R)>, i: int)
    requires is_field::<C>(), valid(f, d, b, v), 0 <= i < b.len(), tri(b, s, i), is_null(mulcol(d, s)),
    ensures is_null(rcol(d, v)(b[i])),
{
    field_ring::<C>();
    let t = change(b, v, s, i);
    mulcol_assoc(d, v, t);
    mulcol_congr(d, mulcol(v, t), s);
    let a = rcol(d, v);
    let dv = |k: R| mulcol(d, v(k));
    assert(a =~= dv);
    assert forall|r: R| (#[trigger] coef(mulcol(a, t), r)) is None by {
        assert(coef(mulcol(d, mulcol(v, t)), r) == coef(mulcol(d, s), r));
        assert(coef(mulcol(d, mulcol(v, t)), r) == coef(mulcol(dv, t), r));
        assert(coef(mulcol(d, s), r) is None);
    }
    supp_distinct(f, a, b, t, i);
    comb_lead(f, a, t);
    assert(coef(t, b[i]) is Some);
}

// ------------------------------------------------------------ termination of column reduction

/// all rows of the first `n` columns
pub open spec fn rows_upto<C: NonZeroCoefficient, K, R>(d: spec_fn(K) -> Seq<(C, R)>, b: Seq<K>, n: int) -> Seq<(C, R)>
    decreases n,
{ if n <= 0 { Seq::empty() } else { rows_upto(d, b, n - 1) + d(b[n - 1]) } }
/// some row of `s` is at least `r`
pub open spec fn dominated<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, r: R) -> bool {
    exists|x: R| (#[trigger] coef(s, x)) is Some && (r == x || rlt(f, r, x))
}
/// how many entries of `u` are dominated by `s`
pub open spec fn count_dom<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, u: Seq<(C, R)>) -> nat
    decreases u.len(),
{ if u.len() == 0 { 0 } else { count_dom(f, s, u.drop_last()) + if dominated(f, s, u.last().1) { 1nat } else { 0 } } }

pub proof fn rows_upto_has<C: NonZeroCoefficient, K, R>(d: spec_fn(K) -> Seq<(C, R)>, b: Seq<K>, n: int, k: int, r: R)
    requires 0 <= k < n, coef(d(b[k]), r) is Some,
    ensures has_row(rows_upto(d, b, n), r),
    decreases n,
{
    let a = rows_upto(d, b, n - 1);
    let c = d(b[n - 1]);
    if k == n - 1 {
        coef_some_row(c, r);
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).1 == r;
        assert((a + c)[a.len() + i].1 == r);
    } else {
        rows_upto_has(d, b, n - 1, k, r);
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1 == r;
        assert((a + c)[i].1 == r);
    }
}
/// rows of a combination of the first columns are rows of these columns
pub proof fn comb_rows<C: NonZeroCoefficient, K, R>(d: spec_fn(K) -> Seq<(C, R)>, b: Seq<K>, t: Seq<(C, K)>, j: int, r: R)
    requires is_ring::<C>(), supp_upto(b, t, j), coef(mulcol(d, t), r) is Some,
    ensures has_row(rows_upto(d, b, j + 1), r),
{
    mulcol_coef(d, t, r);
    if forall|k: K| (#[trigger] coef(t, k)) is Some ==> coef(d(k), r) is None { mulc_null(d, t, r); }
    let k = choose|k: K| (#[trigger] coef(t, k)) is Some && coef(d(k), r) is Some;
    assert(upto(b, k, j));
    let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
    rows_upto_has(d, b, j + 1, i, r);
}
pub proof fn count_mono<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, t: Seq<(C, R)>, u: Seq<(C, R)>, p: R)
    requires is_lead(f, s, p), forall|x: R| (#[trigger] coef(t, x)) is Some ==> rlt(f, x, p),
    ensures count_dom(f, t, u) <= count_dom(f, s, u), has_row(u, p) ==> count_dom(f, t, u) < count_dom(f, s, u),
    decreases u.len(),
{
    assert(coef(s, p) is Some);
    if u.len() > 0 {
        let r = u.last().1;
        count_mono(f, s, t, u.drop_last(), p);
        if dominated(f, t, r) {
            let x = choose|x: R| (#[trigger] coef(t, x)) is Some && (r == x || rlt(f, r, x));
            if r != x { rlt_trans(f, r, x, p); }
            assert(dominated(f, s, r));
            rlt_total(f, r, p);
        }
        if r == p { assert(dominated(f, s, p)); assert(!dominated(f, t, p)) by { rlt_total(f, p, p); if dominated(f, t, p) { let x = choose|x: R| (#[trigger] coef(t, x)) is Some && (p == x || rlt(f, p, x)); rlt_total(f, p, x); } } }
        if has_row(u, p) && r != p {
            let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).1 == p;
            assert(u.drop_last()[i].1 == p);
        }
    }
}
pub proof fn count_congr<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<(C, R)>, t: Seq<(C, R)>, u: Seq<(C, R)>)
    requires eqv(s, t),
    ensures count_dom(f, s, u) == count_dom(f, t, u),
    decreases u.len(),
{
    if u.len() > 0 {
        let r = u.last().1;
        count_congr(f, s, t, u.drop_last());
        if dominated(f, s, r) { let x = choose|x: R| (#[trigger] coef(s, x)) is Some && (r == x || rlt(f, r, x)); assert(coef(t, x) is Some); }
        if dominated(f, t, r) { let x = choose|x: R| (#[trigger] coef(t, x)) is Some && (r == x || rlt(f, r, x)); assert(coef(s, x) is Some); }
    }
}

// ------------------------------------------------------------ one elimination step

/// adding the multiple `m` of column `(rj, vj)` that cancels the lead of `r`
pub proof fn eliminate<F: FiltrationValue, C: Invertible, R: BasisElement, K>(
    f: spec_fn(R) -> F, d: spec_fn(K) -> Seq<(C, R)>,
    r: Seq<(C, R)>, v: Seq<(C, K)>, r2: Seq<(C, R)>, v2: Seq<(C, K)>, vj: Seq<(C, K)>, p: R, x: C, y: C)
    requires
        is_field::<C>(),
        eqv(r, mulcol(d, v)),
        is_lead(f, r, p), coef(r, p) == Some(x),
        is_lead(f, mulcol(d, vj), p), coef(mulcol(d, vj), p) == Some(y),
        ({
            let m = <C as MulSpec<C>>::mul_spec(x.neg_spec(), y.inv_spec());
            &&& forall|q: R| #[trigger] coef(r2, q) == sadd(coef(r, q), smul(coef(mulcol(d, vj), q), Some(m)))
            &&& forall|k: K| #[trigger] coef(v2, k) == sadd(coef(v, k), smul(coef(vj, k), Some(m)))
        }),
    ensures
        eqv(r2, mulcol(d, v2)),
        forall|q: R| (#[trigger] coef(r2, q)) is Some ==> rlt(f, q, p),
{
    field_ring::<C>();
    let m = <C as MulSpec<C>>::mul_spec(x.neg_spec(), y.inv_spec());
    selim(x, y);
    let v3 = v + scale(vj, m);
    assert(eqv(v2, v3)) by { assert forall|k: K| #[trigger] coef(v2, k) == coef(v3, k) by { coef_append(v, scale(vj, m), k); coef_scale(vj, m, k); } }
    assert forall|q: R| #[trigger] coef(r2, q) == coef(mulcol(d, v2), q) by {
        mulcol_congr(d, v2, v3);
        assert(coef(mulcol(d, v2), q) == coef(mulcol(d, v3), q));
        mulcol_coef(d, v3, q); mulcol_coef(d, v, q); mulcol_coef(d, vj, q);
        mulc_append(d, v, scale(vj, m), q);
        mulc_scale(d, vj, m, q);
        assert(coef(r, q) == coef(mulcol(d, v), q));
    }
    assert forall|q: R| (#[trigger] coef(r2, q)) is Some implies rlt(f, q, p) by {
        if q == p { assert(coef(r2, p) is None); }
        if coef(r, q) is None { assert(coef(mulcol(d, vj), q) is Some); }
    }
}

} // verus!
