//! Ghost theory: what a barcode means. For two consecutive degrees of a filtered complex and thresholds `p <= q`, the
//! unpaired or later-paired births up to `p` are a basis of the image of the homology at `p` in the homology at `q`.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::reduce::*;
use crate::reduction::*;
use crate::standard::*;
use crate::clearing::*;
use crate::agree::*;

verus! {

/// the columns of `hi` have their rows in `lo`, both are sorted, and a boundary has no boundary
pub open spec fn two_deg<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < lo.len() ==> rlt(f, #[trigger] lo[i], #[trigger] lo[j])
    &&& forall|i: int, j: int| 0 <= i < j < hi.len() ==> rlt(f, #[trigger] hi[i], #[trigger] hi[j])
    &&& forall|x: K, y: K| hi.contains(y) && (#[trigger] coef(b(y), x)) is Some ==> lo.contains(x)
    &&& forall|y: K| hi.contains(y) ==> is_null(mulcol(b, #[trigger] b(y)))
}
/// `x` is the lead of the reduced boundary of `y`
pub open spec fn kills<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, hi: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, x: K, y: K) -> bool {
    hi.contains(y) && is_lead(f, rcol(b, w)(y), x)
}
pub open spec fn killed<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, hi: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, x: K) -> bool {
    exists|y: K| #[trigger] kills(f, b, hi, w, x, y)
}
pub open spec fn killer<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, hi: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, x: K) -> K {
    choose|y: K| #[trigger] kills(f, b, hi, w, x, y)
}
/// the representative of a birth: the reduced boundary that kills it, or its own column of V
pub open spec fn zcol<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>) -> spec_fn(K) -> Seq<(C, K)> {
    |x: K| if killed(f, b, hi, w, x) { rcol(b, w)(killer(f, b, hi, w, x)) } else { v(x) }
}
pub open spec fn birth<C: NonZeroCoefficient, K: BasisElement>(b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, x: K) -> bool {
    lo.contains(x) && is_null(rcol(b, v)(x))
}
/// born up to `p` and not dead at `q`
pub open spec fn alive<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>, p: F, q: F) -> spec_fn(K) -> bool {
    |x: K| birth(b, lo, v, x) && leq(f(x), p) && forall|y: K| #[trigger] kills(f, b, hi, w, x, y) ==> !leq(f(y), q)
}
/// a chain of the subcomplex at `p`
pub open spec fn chain_at<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, l: spec_fn(K) -> bool, p: F, s: Seq<(C, K)>) -> bool {
    forall|x: K| (#[trigger] coef(s, x)) is Some ==> l(x) && leq(f(x), p)
}
pub open spec fn supp_in<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, a: spec_fn(K) -> bool) -> bool { forall|x: K| (#[trigger] coef(s, x)) is Some ==> a(x) }
/// `s` is the combination `t` of the columns `z` up to the boundary of `u`
pub open spec fn homologous<C: NonZeroCoefficient, K>(b: spec_fn(K) -> Seq<(C, K)>, z: spec_fn(K) -> Seq<(C, K)>, s: Seq<(C, K)>, t: Seq<(C, K)>, u: Seq<(C, K)>) -> bool {
    forall|r: K| #[trigger] coef(s, r) == sadd(coef(mulcol(z, t), r), coef(mulcol(b, u), r))
}
pub open spec fn spanned<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, hi: spec_fn(K) -> bool, z: spec_fn(K) -> Seq<(C, K)>, a: spec_fn(K) -> bool, q: F, s: Seq<(C, K)>) -> bool {
    exists|t: Seq<(C, K)>, u: Seq<(C, K)>| supp_in(t, a) && chain_at(f, hi, q, u) && #[trigger] homologous(b, z, s, t, u)
}
/// the columns `z` of the elements `a` represent a basis of the image of the homology at `p` in the homology at `q`
pub open spec fn image_basis<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: spec_fn(K) -> bool, hi: spec_fn(K) -> bool, z: spec_fn(K) -> Seq<(C, K)>, a: spec_fn(K) -> bool, p: F, q: F) -> bool {
    // cycles at p
    &&& forall|x: K| #[trigger] a(x) ==> chain_at(f, lo, p, z(x)) && is_null(mulcol(b, z(x)))
    // every cycle at p is a combination of them, up to a boundary at q
    &&& forall|s: Seq<(C, K)>| #[trigger] chain_at(f, lo, p, s) && is_null(mulcol(b, s)) ==> spanned(f, b, hi, z, a, q, s)
    // no non-trivial combination of them is a boundary at q
    &&& forall|t: Seq<(C, K)>, u: Seq<(C, K)>| supp_in(t, a) && chain_at(f, hi, q, u) && #[trigger] eqv(mulcol(z, t), mulcol(b, u)) ==> is_null(t)
}

// ---------------------------------------------------------------- prefixes
/// the last position up to `p`
pub proof fn prefix<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, l: Seq<K>, p: F) -> (j: int)
    requires forall|i: int, j: int| 0 <= i < j < l.len() ==> rlt(f, #[trigger] l[i], #[trigger] l[j]),
    ensures -1 <= j < l.len(), forall|i: int| 0 <= i < l.len() ==> (i <= j <==> leq(f(#[trigger] l[i]), p)),
    decreases l.len(),
{
    F::lawful_filt(); K::lawful_elem();
    if l.len() == 0 { -1 }
    else {
        let n = l.len() - 1;
        if leq(f(l[n]), p) {
            assert forall|i: int| 0 <= i < l.len() implies leq(f(#[trigger] l[i]), p) by { if i < n { assert(rlt(f, l[i], l[n])); leq_trans(f(l[i]), f(l[n]), p); } }
            n
        } else {
            let l2 = l.drop_last();
            assert forall|i: int, j: int| 0 <= i < j < l2.len() implies rlt(f, #[trigger] l2[i], #[trigger] l2[j]) by { assert(rlt(f, l[i], l[j])); }
            let j = prefix(f, l2, p);
            assert forall|i: int| 0 <= i < l.len() implies (i <= j <==> leq(f(#[trigger] l[i]), p)) by { if i < n { assert(l2[i] == l[i]); } }
            j
        }
    }
}
pub proof fn chain_upto<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, l: Seq<K>, p: F, s: Seq<(C, K)>, j: int)
    requires -1 <= j < l.len(), forall|i: int| 0 <= i < l.len() ==> (i <= j <==> leq(f(#[trigger] l[i]), p)),
    ensures chain_at(f, in_list(l), p, s) <==> supp_upto(l, s, j),
{
    if chain_at(f, in_list(l), p, s) {
        assert forall|x: K| (#[trigger] coef(s, x)) is Some implies upto(l, x, j) by { let i = l.index_of(x); assert(l[i] == x); }
    }
    if supp_upto(l, s, j) {
        assert forall|x: K| (#[trigger] coef(s, x)) is Some implies l.contains(x) && leq(f(x), p) by {
            assert(upto(l, x, j));
            let i = choose|i: int| 0 <= i <= j && i < l.len() && #[trigger] l[i] == x;
            assert(l.contains(l[i]));
        }
    }
}
/// a triangular column is a chain at the time of its element
pub proof fn tri_chain<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, l: Seq<K>, s: Seq<(C, K)>, i: int, p: F)
    requires forall|i: int, j: int| 0 <= i < j < l.len() ==> rlt(f, #[trigger] l[i], #[trigger] l[j]), 0 <= i < l.len(), crate::reduce::tri(l, s, i), leq(f(l[i]), p),
    ensures chain_at(f, in_list(l), p, s),
{
    let j = prefix(f, l, p);
    assert forall|x: K| (#[trigger] coef(s, x)) is Some implies upto(l, x, j) by {
        assert(upto(l, x, i));
        let k = choose|k: int| 0 <= k <= i && k < l.len() && #[trigger] l[k] == x;
        assert(l[k] == x);
    }
    chain_upto(f, l, p, s, j);
}

// ---------------------------------------------------------------- representatives
/// a reduced boundary with lead `x`: rows in `lo`, no later than `x`, and no boundary
pub proof fn killing_col<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, w: spec_fn(K) -> Seq<(C, K)>, x: K, y: K)
    requires is_ring::<C>(), two_deg(f, b, lo, hi), valid(f, b, hi, w), kills(f, b, hi, w, x, y),
    ensures lo.contains(x), crate::reduce::tri(lo, rcol(b, w)(y), lo.index_of(x)), is_null(mulcol(b, rcol(b, w)(y))),
{
    let s = w(y);
    let r = rcol(b, w)(y);
    let j = hi.index_of(y);
    assert(crate::reduce::tri(hi, w(hi[j]), j));
    assert forall|q: K| (#[trigger] coef(r, q)) is Some implies lo.contains(q) by { let i = comb_row(b, hi, s, j, q); assert(hi.contains(hi[i])); }
    assert(coef(r, x) is Some);
    let m = lo.index_of(x);
    assert forall|q: K| (#[trigger] coef(r, q)) is Some implies upto(lo, q, m) by {
        let k = lo.index_of(q);
        assert(lo[k] == q && lo[m] == x);
        if k > m { assert(rlt(f, lo[m], lo[k])); rlt_total(f, x, q); }
    }
    mulcol_assoc(b, b, s);
    let bb = |k: K| mulcol(b, b(k));
    assert forall|q: K| (#[trigger] coef(mulcol(b, r), q)) is None by {
        assert(coef(mulcol(b, mulcol(b, s)), q) == coef(mulcol(bb, s), q));
        mulcol_coef(bb, s, q);
        assert forall|z: K| (#[trigger] coef(s, z)) is Some implies coef(bb(z), q) is None by {
            assert(upto(hi, z, j));
            let i = choose|i: int| 0 <= i <= j && i < hi.len() && #[trigger] hi[i] == z;
            assert(hi.contains(hi[i]));
            assert(is_null(mulcol(b, b(z))));
        }
        mulc_null(bb, s, q);
    }
}
/// the representatives of births and the other columns of V are together triangular; those of births are cycles
pub proof fn reps<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>, i: int)
    requires is_field::<C>(), two_deg(f, b, lo, hi), valid(f, b, lo, v), valid(f, b, hi, w), 0 <= i < lo.len(),
    ensures
        crate::reduce::tri(lo, zcol(f, b, hi, v, w)(lo[i]), i),
        is_lead(f, zcol(f, b, hi, v, w)(lo[i]), lo[i]),
        birth(b, lo, v, lo[i]) ==> is_null(mulcol(b, zcol(f, b, hi, v, w)(lo[i]))),
        !birth(b, lo, v, lo[i]) ==> zcol(f, b, hi, v, w)(lo[i]) == v(lo[i]) && !killed(f, b, hi, w, lo[i]),
{
    field_ring::<C>();
    let x = lo[i];
    let z = zcol(f, b, hi, v, w)(x);
    assert(lo.contains(lo[i]));
    assert(crate::reduce::tri(lo, v(lo[i]), i));
    if killed(f, b, hi, w, x) {
        let y = killer(f, b, hi, w, x);
        assert(kills(f, b, hi, w, x, y));
        killing_col(f, b, lo, hi, w, x, y);
        let k = lo.index_of(x);
        assert(lo[k] == lo[i]);
        assert(k == i) by { if k < i { assert(lo[k] != lo[i]); } else if i < k { assert(lo[i] != lo[k]); } }
        cycle_null(f, b, lo, v, z, i);
    }
    assert forall|q: K| (#[trigger] coef(z, q)) is Some implies q == x || rlt(f, q, x) by {
        assert(upto(lo, q, i));
        let k = choose|k: int| 0 <= k <= i && k < lo.len() && #[trigger] lo[k] == q;
        if k < i { assert(rlt(f, lo[k], lo[i])); }
    }
}

// ---------------------------------------------------------------- splitting a combination
pub open spec fn keep<C, K>(s: Seq<(C, K)>, a: spec_fn(K) -> bool) -> Seq<(C, K)> { s.filter(|e: (C, K)| a(e.1)) }
pub proof fn coef_filter<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, a: spec_fn(K) -> bool, r: K)
    ensures coef(keep(s, a), r) == if a(r) { coef(s, r) } else { None },
    decreases s.len(),
{
    reveal(Seq::filter);
    let g = |e: (C, K)| a(e.1);
    if s.len() > 0 {
        coef_filter(s.drop_last(), a, r);
        let s1 = s.drop_last().filter(g);
        let e = s.last();
        if g(e) { assert(s.filter(g) == s1.push(e)); coef_push(s1, e, r); }
    }
}
pub proof fn filter_all<C, K>(s: Seq<(C, K)>, a: spec_fn(K) -> bool)
    ensures forall|i: int| 0 <= i < keep(s, a).len() ==> a((#[trigger] keep(s, a)[i]).1),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { filter_all(s.drop_last(), a); }
}
/// renaming the columns of a combination
pub open spec fn renamed<C, K, L>(s: Seq<(C, K)>, g: spec_fn(K) -> L) -> Seq<(C, L)> { s.map_values(|e: (C, K)| (e.0, g(e.1))) }
pub proof fn mulcol_renamed<C: NonZeroCoefficient, K, L, R>(a: spec_fn(K) -> Seq<(C, R)>, h: spec_fn(L) -> Seq<(C, R)>, g: spec_fn(K) -> L, s: Seq<(C, K)>)
    requires forall|i: int| 0 <= i < s.len() ==> a((#[trigger] s[i]).1) == h(g(s[i].1)),
    ensures mulcol(a, s) == mulcol(h, renamed(s, g)),
    decreases s.len(),
{
    if s.len() > 0 {
        let s1 = s.drop_last();
        assert forall|i: int| 0 <= i < s1.len() implies a((#[trigger] s1[i]).1) == h(g(s1[i].1)) by { assert(s1[i] == s[i]); }
        mulcol_renamed(a, h, g, s1);
        let t = renamed(s, g);
        assert(t.drop_last() =~= renamed(s1, g));
        assert(t.last() == (s.last().0, g(s.last().1)));
        assert(s.last() == s[s.len() - 1]);
    }
}
/// the columns of a combination are chains at `q`: so is the combination
pub proof fn comb_chain<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, l: Seq<K>, q: F, w: spec_fn(K) -> Seq<(C, K)>, s: Seq<(C, K)>)
    requires is_ring::<C>(), forall|k: K| (#[trigger] coef(s, k)) is Some ==> chain_at(f, in_list(l), q, w(k)),
    ensures chain_at(f, in_list(l), q, mulcol(w, s)),
{
    assert forall|x: K| (#[trigger] coef(mulcol(w, s), x)) is Some implies l.contains(x) && leq(f(x), q) by {
        mulcol_coef(w, s, x);
        mulc_source(w, s, x);
        let k = choose|k: K| #[trigger] feeds(w, s, x, k);
        assert(coef(s, k) is Some);
        assert(coef(w(k), x) is Some);
    }
}

// ---------------------------------------------------------------- the theorem
/// a cycle at `p` is a combination of the representatives of the births up to `p`
pub proof fn cycle_births<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>, p: F, s: Seq<(C, K)>) -> (t: Seq<(C, K)>)
    requires is_field::<C>(), two_deg(f, b, lo, hi), valid(f, b, lo, v), valid(f, b, hi, w), chain_at(f, in_list(lo), p, s), is_null(mulcol(b, s)),
    ensures
        eqv(mulcol(zcol(f, b, hi, v, w), t), s), chain_at(f, in_list(lo), p, t),
        forall|x: K| (#[trigger] coef(t, x)) is Some ==> birth(b, lo, v, x),
{
    field_ring::<C>();
    let z = zcol(f, b, hi, v, w);
    let j = prefix(f, lo, p);
    chain_upto(f, lo, p, s, j);
    assert forall|k: int| 0 <= k < lo.len() implies crate::reduce::tri(lo, z(#[trigger] lo[k]), k) by { reps(f, b, lo, hi, v, w, k); }
    let t = change(lo, z, s, j);
    chain_upto(f, lo, p, t, j);
    // apply the boundary: the columns of births vanish, the others have distinct leads
    mulcol_assoc(b, z, t);
    mulcol_congr(b, mulcol(z, t), s);
    let a = |k: K| mulcol(b, z(k));
    assert forall|r: K| (#[trigger] coef(mulcol(a, t), r)) is None by {
        assert(coef(mulcol(b, mulcol(z, t)), r) == coef(mulcol(b, s), r));
        assert(coef(mulcol(b, mulcol(z, t)), r) == coef(mulcol(a, t), r));
        assert(coef(mulcol(b, s), r) is None);
    }
    assert forall|k: int, l: int, r: K| 0 <= k < lo.len() && 0 <= l < lo.len() && #[trigger] is_lead(f, a(lo[k]), r) && #[trigger] is_lead(f, a(lo[l]), r) implies k == l by {
        reps(f, b, lo, hi, v, w, k); reps(f, b, lo, hi, v, w, l);
        if birth(b, lo, v, lo[k]) { lead_not_null(f, a(lo[k]), r); }
        if birth(b, lo, v, lo[l]) { lead_not_null(f, a(lo[l]), r); }
        assert(is_lead(f, rcol(b, v)(lo[k]), r) && is_lead(f, rcol(b, v)(lo[l]), r));
    }
    assert(distinct_leads(f, a, lo));
    supp_distinct(f, a, lo, t, j);
    comb_lead(f, a, t);
    assert forall|x: K| (#[trigger] coef(t, x)) is Some implies birth(b, lo, v, x) by {
        assert(upto(lo, x, j));
        let k = choose|k: int| 0 <= k <= j && k < lo.len() && #[trigger] lo[k] == x;
        reps(f, b, lo, hi, v, w, k);
        assert(lo.contains(lo[k]));
        assert(is_null(a(x)));
        if !birth(b, lo, v, x) { assert(a(x) == rcol(b, v)(x)); }
    }
    t
}
/// the dead part of a combination is a boundary at `q`
pub proof fn dead_part<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>, q: F, s: Seq<(C, K)>) -> (u: Seq<(C, K)>)
    requires
        is_field::<C>(), two_deg(f, b, lo, hi), valid(f, b, hi, w),
        forall|i: int| 0 <= i < s.len() ==> killed(f, b, hi, w, (#[trigger] s[i]).1) && leq(f(killer(f, b, hi, w, s[i].1)), q),
    ensures chain_at(f, in_list(hi), q, u), eqv(mulcol(zcol(f, b, hi, v, w), s), mulcol(b, u)),
{
    field_ring::<C>();
    let z = zcol(f, b, hi, v, w);
    let g = |x: K| killer(f, b, hi, w, x);
    let s2 = renamed(s, g);
    let a = rcol(b, w);
    mulcol_renamed(z, a, g, s);
    let u = mulcol(w, s2);
    mulcol_assoc(b, w, s2);
    let bw = |k: K| mulcol(b, w(k));
    assert(a =~= bw);
    assert forall|k: K| (#[trigger] coef(s2, k)) is Some implies chain_at(f, in_list(hi), q, w(k)) by {
        coef_some_row(s2, k);
        let i = choose|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).1 == k;
        let x = s[i].1;
        assert(killed(f, b, hi, w, x));
        assert(s2[i].1 == g(x));
        assert(kills(f, b, hi, w, x, k));
        let m = hi.index_of(k);
        assert(crate::reduce::tri(hi, w(hi[m]), m));
        tri_chain(f, hi, w(k), m, q);
    }
    comb_chain(f, hi, q, w, s2);
    assert forall|r: K| #[trigger] coef(mulcol(z, s), r) == coef(mulcol(b, u), r) by {
        assert(coef(mulcol(b, mulcol(w, s2)), r) == coef(mulcol(bw, s2), r));
    }
    u
}
pub proof fn span<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>, p: F, q: F, s: Seq<(C, K)>)
    requires is_field::<C>(), two_deg(f, b, lo, hi), valid(f, b, lo, v), valid(f, b, hi, w), chain_at(f, in_list(lo), p, s), is_null(mulcol(b, s)),
    ensures spanned(f, b, in_list(hi), zcol(f, b, hi, v, w), alive(f, b, lo, hi, v, w, p, q), q, s),
{
    field_ring::<C>();
    let z = zcol(f, b, hi, v, w);
    let al = alive(f, b, lo, hi, v, w, p, q);
    let t0 = cycle_births(f, b, lo, hi, v, w, p, s);
    let dead = |x: K| killed(f, b, hi, w, x) && leq(f(killer(f, b, hi, w, x)), q);
    let live = |x: K| !dead(x);
    let t1 = keep(t0, dead);
    let t = keep(t0, live);
    filter_all(t0, dead);
    let u = dead_part(f, b, lo, hi, v, w, q, t1);
    assert forall|x: K| (#[trigger] coef(t, x)) is Some implies al(x) by {
        coef_filter(t0, live, x);
        assert(coef(t0, x) is Some);
        assert forall|y: K| #[trigger] kills(f, b, hi, w, x, y) implies !leq(f(y), q) by {
            let y2 = killer(f, b, hi, w, x);
            assert(kills(f, b, hi, w, x, y2));
            let (i, j) = (hi.index_of(y), hi.index_of(y2));
            assert(is_lead(f, rcol(b, w)(hi[i]), x) && is_lead(f, rcol(b, w)(hi[j]), x));
        }
    }
    let t2 = t + t1;
    assert forall|x: K| #[trigger] coef(t2, x) == coef(t0, x) by { coef_append(t, t1, x); coef_filter(t0, live, x); coef_filter(t0, dead, x); }
    mulcol_congr(z, t2, t0);
    assert forall|r: K| #[trigger] coef(s, r) == sadd(coef(mulcol(z, t), r), coef(mulcol(b, u), r)) by {
        mulc_append(z, t, t1, r);
        mulcol_coef(z, t2, r); mulcol_coef(z, t, r); mulcol_coef(z, t1, r);
        assert(coef(mulcol(z, t2), r) == coef(mulcol(z, t0), r));
        assert(coef(mulcol(z, t0), r) == coef(s, r));
        assert(coef(mulcol(z, t1), r) == coef(mulcol(b, u), r));
    }
    assert(homologous(b, z, s, t, u));
}
pub proof fn independent<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>, p: F, q: F, t: Seq<(C, K)>, u: Seq<(C, K)>)
    requires
        is_field::<C>(), two_deg(f, b, lo, hi), valid(f, b, lo, v), valid(f, b, hi, w),
        supp_in(t, alive(f, b, lo, hi, v, w, p, q)), chain_at(f, in_list(hi), q, u), eqv(mulcol(zcol(f, b, hi, v, w), t), mulcol(b, u)),
    ensures is_null(t),
{
    field_ring::<C>();
    let z = zcol(f, b, hi, v, w);
    let al = alive(f, b, lo, hi, v, w, p, q);
    let a = rcol(b, w);
    // the lead of the left side is the latest of the elements combined
    assert forall|x: K| #[trigger] al(x) implies is_lead(f, z(x), x) by { let i = lo.index_of(x); assert(lo[i] == x); reps(f, b, lo, hi, v, w, i); }
    assert forall|k: K, l: K, r: K| coef(t, k) is Some && coef(t, l) is Some && #[trigger] is_lead(f, z(k), r) && #[trigger] is_lead(f, z(l), r) implies k == l by {
        assert(al(k) && al(l));
        lead_unique(f, z(k), k, r); lead_unique(f, z(l), l, r);
    }
    comb_lead(f, z, t);
    if is_null(mulcol(z, t)) {
        assert forall|x: K| (#[trigger] coef(t, x)) is None by {
            if coef(t, x) is Some { assert(al(x)); assert(is_null(z(x))); lead_not_null(f, z(x), x); }
        }
    } else {
        let (x, r) = choose|k: K, r: K| #[trigger] comb_has(f, z, t, mulcol(z, t), k, r);
        assert(coef(t, x) is Some);
        assert(al(x));
        lead_unique(f, z(x), x, r);
        assert(is_lead(f, mulcol(z, t), x));
        // the lead of the right side is the birth of a pair that died up to q
        let j = prefix(f, hi, q);
        chain_upto(f, hi, q, u, j);
        let u2 = change(hi, w, u, j);
        mulcol_assoc(b, w, u2);
        mulcol_congr(b, mulcol(w, u2), u);
        let bw = |k: K| mulcol(b, w(k));
        assert(a =~= bw);
        assert(eqv(mulcol(z, t), mulcol(a, u2))) by {
            assert forall|y: K| #[trigger] coef(mulcol(z, t), y) == coef(mulcol(a, u2), y) by {
                assert(coef(mulcol(z, t), y) == coef(mulcol(b, u), y));
                assert(coef(mulcol(b, mulcol(w, u2)), y) == coef(mulcol(b, u), y));
                assert(coef(mulcol(b, mulcol(w, u2)), y) == coef(mulcol(bw, u2), y));
            }
        }
        lead_congr(f, mulcol(z, t), mulcol(a, u2));
        assert(is_lead(f, mulcol(a, u2), x));
        supp_distinct(f, a, hi, u2, j);
        comb_lead(f, a, u2);
        lead_not_null(f, mulcol(a, u2), x);
        let (y, r2) = choose|k: K, r: K| #[trigger] comb_has(f, a, u2, mulcol(a, u2), k, r);
        lead_unique(f, mulcol(a, u2), x, r2);
        assert(coef(u2, y) is Some);
        assert(upto(hi, y, j));
        let i = choose|i: int| 0 <= i <= j && i < hi.len() && #[trigger] hi[i] == y;
        assert(hi.contains(hi[i]));
        assert(kills(f, b, hi, w, x, y));
        assert(leq(f(hi[i]), q));
    }
}
/// The bars alive from `p` to `q` are a basis of the image of the homology at `p` in the homology at `q`: their
/// number is the persistent Betti number.
pub proof fn theorem_persistence<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: Seq<K>, hi: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>, p: F, q: F)
    requires is_field::<C>(), two_deg(f, b, lo, hi), valid(f, b, lo, v), valid(f, b, hi, w),
    ensures image_basis(f, b, in_list(lo), in_list(hi), zcol(f, b, hi, v, w), alive(f, b, lo, hi, v, w, p, q), p, q),
{
    let z = zcol(f, b, hi, v, w);
    let al = alive(f, b, lo, hi, v, w, p, q);
    assert forall|x: K| #[trigger] al(x) implies chain_at(f, in_list(lo), p, z(x)) && is_null(mulcol(b, z(x))) by {
        let i = lo.index_of(x);
        assert(lo[i] == x);
        reps(f, b, lo, hi, v, w, i);
        tri_chain(f, lo, z(x), i, p);
    }
    assert forall|s: Seq<(C, K)>| #[trigger] chain_at(f, in_list(lo), p, s) && is_null(mulcol(b, s)) implies spanned(f, b, in_list(hi), z, al, q, s) by { span(f, b, lo, hi, v, w, p, q, s); }
    assert forall|t: Seq<(C, K)>, u: Seq<(C, K)>| supp_in(t, al) && chain_at(f, in_list(hi), q, u) && #[trigger] eqv(mulcol(z, t), mulcol(b, u)) implies is_null(t) by { independent(f, b, lo, hi, v, w, p, q, t, u); }
}

// ---------------------------------------------------------------- diagrams
/// the bars of the list `lo` that are born up to `p` and not dead at `q`
pub open spec fn bars_at<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, lo: spec_fn(K) -> bool, ess: Set<K>, par: Set<(K, K)>, p: F, q: F) -> spec_fn(K) -> bool {
    |x: K| lo(x) && leq(f(x), p) && (ess.contains(x) || lives(f, par, x, q))
}
pub open spec fn lives<F: FiltrationValue, K: BasisElement>(f: spec_fn(K) -> F, par: Set<(K, K)>, x: K, q: F) -> bool { exists|y: K| #[trigger] par.contains((x, y)) && !leq(f(y), q) }
/// their number is the rank of the map from the homology at `p` to the homology at `q`
pub open spec fn persistent_betti<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, b: spec_fn(K) -> Seq<(C, K)>, lo: spec_fn(K) -> bool, hi: spec_fn(K) -> bool, a: spec_fn(K) -> bool, p: F, q: F) -> bool {
    exists|z: spec_fn(K) -> Seq<(C, K)>| #[trigger] image_basis(f, b, lo, hi, z, a, p, q)
}
/// the list one degree up
pub open spec fn above<K>(bs: Seq<Seq<K>>, s: int) -> Seq<K> { if s > 0 { bs[s - 1] } else { Seq::empty() } }
/// The diagram of the clearing algorithm counts persistent Betti numbers, in every degree it processed.
pub proof fn theorem_clearing_betti<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>, s: int, p: F, q: F)
    requires is_field::<C>(), cl_cx(f, d, bs), clear_ok(f, d, bs, cols, ess, par), 0 <= s < bs.len(),
    ensures persistent_betti(f, d, in_list(bs[s]), in_list(above(bs, s)), bars_at(f, in_list(bs[s]), ess, par, p, q), p, q),
{
    field_ring::<C>();
    let (lo, hi, v) = (bs[s], above(bs, s), vcl(d, cols));
    let a = rcol(d, v);
    assert(valid(f, d, bs[s], v));
    if s > 0 { assert(valid(f, d, bs[s - 1], v)); } else { assert(valid(f, d, hi, v)); }
    assert forall|i: int, j: int| 0 <= i < j < lo.len() implies rlt(f, #[trigger] lo[i], #[trigger] lo[j]) by { assert(rlt(f, bs[s][i], bs[s][j])); }
    assert forall|i: int, j: int| 0 <= i < j < hi.len() implies rlt(f, #[trigger] hi[i], #[trigger] hi[j]) by { assert(rlt(f, bs[s - 1][i], bs[s - 1][j])); }
    assert forall|x: K, y: K| hi.contains(y) && (#[trigger] coef(d(y), x)) is Some implies lo.contains(x) by {
        let k = hi.index_of(y);
        assert(coef(d(bs[s - 1][k]), x) is Some);
        assert(next_row(bs, s - 1, x));
    }
    assert forall|y: K| hi.contains(y) implies is_null(mulcol(d, #[trigger] d(y))) by { let k = hi.index_of(y); assert(is_null(mulcol(d, d(bs[s - 1][k])))); }
    assert(two_deg(f, d, lo, hi));
    theorem_persistence(f, d, lo, hi, v, v, p, q);
    let (al, ba) = (alive(f, d, lo, hi, v, v, p, q), bars_at(f, in_list(lo), ess, par, p, q));
    assert forall|x: K| #[trigger] al(x) == ba(x) by {
        if lo.contains(x) {
            let i = lo.index_of(x);
            assert(bs[s][i] == x);
            assert(in_subs(bs, x));
            // only elements one degree up have `x` as a lead
            assert forall|y: K| #[trigger] par.contains((x, y)) <==> kills(f, d, hi, v, x, y) by {
                if par.contains((x, y)) { clearing_lead(f, d, bs, v, y, x, s); }
                if kills(f, d, hi, v, x, y) { let k = hi.index_of(y); assert(bs[s - 1][k] == y); assert(in_subs(bs, y)); }
            }
            if lives(f, par, x, q) {
                let y = choose|y: K| #[trigger] par.contains((x, y)) && !leq(f(y), q);
                assert(kills(f, d, hi, v, x, y));
                killing_col(f, d, lo, hi, v, x, y);
                assert(lo[lo.index_of(x)] == x);
                assert(lo.index_of(x) == i);
                cycle_null(f, d, lo, v, rcol(d, v)(y), i);
                assert forall|y2: K| #[trigger] kills(f, d, hi, v, x, y2) implies !leq(f(y2), q) by {
                    assert(par.contains((x, y2)));
                    assert(in_subs(bs, y) && in_subs(bs, y2));
                    assert(is_lead(f, a(y), x) && is_lead(f, a(y2), x));
                }
            }
            if al(x) && !ess.contains(x) {
                assert(is_birth(par, x));
                let y = choose|y: K| #[trigger] par.contains((x, y));
                assert(kills(f, d, hi, v, x, y));
            }
            if ess.contains(x) {
                assert forall|y: K| #[trigger] kills(f, d, hi, v, x, y) implies !leq(f(y), q) by { assert(par.contains((x, y))); assert(is_birth(par, x)); }
            }
        }
    }
    assert(al =~= ba);
    assert(image_basis(f, d, in_list(lo), in_list(hi), zcol(f, d, hi, v, v), ba, p, q));
}
/// the lead of a column is one degree down
pub proof fn clearing_lead<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, v: spec_fn(K) -> Seq<(C, K)>, y: K, x: K, s: int)
    requires
        is_field::<C>(), cl_cx(f, d, bs), in_subs(bs, y), 0 <= s < bs.len(), bs[s].contains(x), is_lead(f, rcol(d, v)(y), x),
        forall|t: int| 0 <= t < bs.len() ==> valid(f, d, #[trigger] bs[t], v),
    ensures above(bs, s).contains(y),
{
    field_ring::<C>();
    let (t, k) = choose|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() && #[trigger] bs[t][k] == y;
    assert(valid(f, d, bs[t], v));
    assert(crate::reduce::tri(bs[t], v(bs[t][k]), k));
    let i = comb_row(d, bs[t], v(y), k, x);
    assert(coef(d(bs[t][i]), x) is Some);
    assert(next_row(bs, t, x));
    let m = bs[s].index_of(x);
    assert(bs[s][m] == x);
    if t + 1 < bs.len() {
        let m2 = bs[t + 1].index_of(x);
        assert(bs[t + 1][m2] == bs[s][m]);
        assert(bs[s - 1][k] == y);
    } else { assert(in_subs(bs, x)); }
}
/// The diagram of the standard algorithm over a sorted basis counts persistent Betti numbers.
pub proof fn theorem_standard_betti<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>, ess: Set<K>, par: Set<(K, K)>, p: F, q: F)
    requires is_field::<C>(), sorted_complex(f, d, b), rdv_ok(f, d, b, v), diagram_of(f, rcol(d, vmap(v)), b, false, ess, par),
    ensures persistent_betti(f, d, in_list(b), in_list(b), bars_at(f, in_list(b), ess, par, p, q), p, q),
{
    field_ring::<C>();
    rdv_valid(f, d, b, v);
    theorem_partition_sorted(f, d, b, v, ess, par);
    let w = vmap(v);
    let a = rcol(d, w);
    assert forall|x: K, y: K| b.contains(y) && (#[trigger] coef(d(y), x)) is Some implies b.contains(x) by { let k = b.index_of(y); assert(coef(d(b[k]), x) is Some); }
    assert forall|y: K| b.contains(y) implies is_null(mulcol(d, #[trigger] d(y))) by { let k = b.index_of(y); assert(is_null(mulcol(d, d(b[k])))); }
    assert(two_deg(f, d, b, b));
    theorem_persistence(f, d, b, b, w, w, p, q);
    let (al, ba) = (alive(f, d, b, b, w, w, p, q), bars_at(f, in_list(b), ess, par, p, q));
    assert forall|x: K| #[trigger] al(x) == ba(x) by {
        if b.contains(x) {
            let i = b.index_of(x);
            assert(b[i] == x);
            assert forall|y: K| #[trigger] par.contains((x, y)) <==> kills(f, d, b, w, x, y) by {}
            if lives(f, par, x, q) {
                let y = choose|y: K| #[trigger] par.contains((x, y)) && !leq(f(y), q);
                let j = b.index_of(y);
                let i2 = sorted_lead_is_cycle(f, d, b, v, j, x);
                assert forall|y2: K| #[trigger] kills(f, d, b, w, x, y2) implies !leq(f(y2), q) by {
                    let j2 = b.index_of(y2);
                    assert(is_lead(f, a(b[j]), x) && is_lead(f, a(b[j2]), x));
                }
            }
            if al(x) && !ess.contains(x) {
                if !is_birth(par, x) {
                    assert forall|k: int| 0 <= k < b.len() && later(false, k, i) implies !is_lead(f, a(#[trigger] b[k]), x) by { if is_lead(f, a(b[k]), x) { assert(b.contains(b[k])); assert(par.contains((x, b[k]))); } }
                    assert(unled(f, a, b, false, i, x));
                }
                let y = choose|y: K| #[trigger] par.contains((x, y));
                assert(kills(f, d, b, w, x, y));
            }
            if ess.contains(x) {
                assert forall|y: K| #[trigger] kills(f, d, b, w, x, y) implies !leq(f(y), q) by {
                    assert(par.contains((x, y)));
                    assert(is_birth(par, x));
                }
            }
        }
    }
    assert(al =~= ba);
    assert(image_basis(f, d, in_list(b), in_list(b), zcol(f, d, b, w, w), ba, p, q));
}

} // verus!
