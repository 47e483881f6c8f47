@@file phlite/src/reduction/standard.rs standard
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::heap::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::combinators::*;
use crate::implementors::*;
use crate::reduction::*;
use crate::reduce::*;
use crate::adaptors::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;

@@fn standard_algo
@ret r
@spec
    requires
        boundary.m_wf(), boundary.f_wf(), boundary.c_wf(), is_field::<M::CoefficientField>(),
        distinct(boundary.m_basis().b_seq()),
        forall|i: int| 0 <= i < boundary.m_basis().b_seq().len() ==> boundary.m_dom(#[trigger] boundary.m_basis().b_seq()[i]),
    ensures
        rdv_ok(fmap(&boundary), dmap(&boundary), boundary.m_basis().b_seq(), r.columns.cv()@),
@start
    let ghost b = boundary.m_basis().b_seq();
    let ghost d = dmap(&boundary);
    let ghost f = fmap(&boundary);
    proof { boundary.m_ring(); M::RowT::lawful_elem(); lawful_clone::<M::RowT>(); M::FiltrationT::lawful_filt(); unit_lawful(); }
@before loop#0
    proof { reveal(std_inv); }
@loop 0
    invariant
        b == boundary.m_basis().b_seq(), d == dmap(&boundary), f == fmap(&boundary),
        boundary.m_wf(), boundary.f_wf(), boundary.c_wf(), is_field::<M::CoefficientField>(), distinct(b),
        forall|i: int| 0 <= i < b.len() ==> boundary.m_dom(#[trigger] b[i]),
        lawful::<M::RowT>(), lawful::<M::FiltrationT>(), lawful::<Unit>(), is_ring::<M::CoefficientField>(),
        std_inv(f, d, b, v@, low_inverse@, vpit0.index@),
@loopstart 0
    let ghost n = vpit0.index@;
    proof { lawful_clone::<M::RowT>(); ring_exec::<M::CoefficientField>(); }
@before loop#1
    proof { lemma_start(f, d, b, n, r_i.heap.seq(), v_i.heap.seq()); }
@loop 1
    invariant
        0 <= n < b.len(),
        boundary.m_wf(), boundary.f_wf(), boundary.c_wf(), is_field::<M::CoefficientField>(), distinct(b),
        b == boundary.m_basis().b_seq(), d == dmap(&boundary), f == fmap(&boundary),
        forall|i: int| 0 <= i < b.len() ==> boundary.m_dom(#[trigger] b[i]),
        lawful::<M::RowT>(), lawful::<M::FiltrationT>(), lawful::<Unit>(), is_ring::<M::CoefficientField>(),
        std_inv(f, d, b, v@, low_inverse@, n),
        red_inv(f, d, b, n, r_i.heap.seq(), v_i.heap.seq()),
    ensures
        reduced(f, pairs(r_i.heap.seq()), low_inverse@),
    decreases count_dom(f, pairs(r_i.heap.seq()), rows_upto(d, b, n + 1)),
@loopstart 1
    let ghost (r0, v0) = (r_i.heap.seq(), v_i.heap.seq());
    proof { lawful_clone::<M::RowT>(); field_ring::<M::CoefficientField>(); ring_exec::<M::CoefficientField>(); red_facts(f, d, b, n, r0, v0); std_facts(f, d, b, v@, low_inverse@, n); }
@before break#0
    proof { lemma_zero(f, d, b, n, r0, r_i.heap.seq(), v0); }
@before add_entry
    let ghost (h1, e) = (r_i.heap.seq(), pivot_entry);
@after add_entry
    let ghost r2 = r_i.heap.seq();
    proof { lemma_pushed(f, d, b, n, r0, h1, r2, v0, e); }
@before add_entries#0
    let ghost vj = v@[*j_basis_element]@;
    let ghost rj = mulcol(d, vj);
    proof {
        std_facts(f, d, b, v@, low_inverse@, n);
        assert forall|x: M::ColT| #[trigger] v_matrix.m_row(x) implies boundary.m_dom(x) by { }
        assert(dmap(&r_matrix.left) =~= d);
        assert forall|es: Seq<ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>>, ms: Seq<ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>>|
            #![trigger eqv(pairs(es), rj), r2 + ms]
            eqv(pairs(es), rj) && fil_by(es, f) && scaled_entries(ms, es, col_multiple) implies is_added(pairs(r2 + ms), pairs(r2), rj, col_multiple) && fil_by(r2 + ms, f) by { lemma_added(r2, es, ms, rj, col_multiple); }
        assert forall|es: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>, ms: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>|
            #![trigger eqv(pairs(es), vj), v0 + ms]
            eqv(pairs(es), vj) && scaled_entries(ms, es, col_multiple) implies is_added(pairs(v0 + ms), pairs(v0), vj, col_multiple) by { lemma_added(v0, es, ms, vj, col_multiple); }
    }
@after add_entries#1
    proof { lemma_step(f, d, b, n, v@, low_inverse@, r2, v0, r_i.heap.seq(), v_i.heap.seq(), e); count_congr(f, pairs(r2), pairs(r0), rows_upto(d, b, n + 1)); }
@closureparam 0 vp_e: ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>
@closure 0 r: ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>
    requires is_ring::<M::CoefficientField>()
    ensures scaled_entry(r, vp_e, col_multiple)
@closurestart 0
    proof { ring_exec::<M::CoefficientField>(); }
@closureparam 1 vp_e: ColumnEntry<Unit, M::RowT, M::CoefficientField>
@closure 1 r: ColumnEntry<Unit, M::RowT, M::CoefficientField>
    requires is_ring::<M::CoefficientField>()
    ensures scaled_entry(r, vp_e, col_multiple)
@closurestart 1
    proof { ring_exec::<M::CoefficientField>(); }
@closureparam 2 vp_e: ColumnEntry<Unit, M::RowT, M::CoefficientField>
@closure 2 r: (M::CoefficientField, M::RowT)
    ensures r == (vp_e.coeff, vp_e.row_index)
@after loop#1
    let ghost (r9, v9, low9, vm9) = (r_i.heap.seq(), v_i.heap.seq(), low_inverse@, v@);
    proof { red_facts(f, d, b, n, r9, v9); }
@before insert#1
    proof {
        lemma_low(f, d, b, n, r9, v9, low9, low_inverse@);
    }
@after insert#1
    proof {
        lemma_vcol(b, n, v9, v@[b[n]]@);
        lemma_save(f, d, b, n, r9, v9, vm9, v@, low9, low_inverse@);
    }
@end
    proof { lemma_std_done(f, d, b, v@, low_inverse@); }

@@fn read_off_diagram
@ret r
@spec
    requires
        boundary.m_wf(), boundary.f_wf(), boundary.c_wf(),
        distinct(boundary.m_basis().b_seq()),
        forall|i: int| 0 <= i < boundary.m_basis().b_seq().len() ==> reduction_matrix.m_dom(#[trigger] boundary.m_basis().b_seq()[i]),
        forall|x: M::ColT| #[trigger] reduction_matrix.m_row(x) ==> boundary.m_dom(x),
    ensures
        diagram_of(fmap(&boundary), rcol(dmap(&boundary), vmap(reduction_matrix.columns.cv()@)), boundary.m_basis().b_seq(), reverse_order, r.essential@, r.pairings@),
@start
    let ghost b = boundary.m_basis().b_seq();
    let ghost f = fmap(&boundary);
    let ghost a = rcol(dmap(&boundary), vmap(reduction_matrix.columns.cv()@));
    proof { boundary.m_ring(); M::RowT::lawful_elem(); lawful_clone::<M::RowT>(); }
@before loop#0
    proof {
        assert(dmap(&r.left) =~= dmap(&boundary));
        reveal(read_inv);
    }
@loop 0
    invariant
        boundary.m_wf(), boundary.f_wf(), boundary.c_wf(), is_ring::<M::CoefficientField>(), lawful::<M::RowT>(), distinct(b),
        b == boundary.m_basis().b_seq(), f == fmap(&boundary), a == rcol(dmap(&boundary), vmap(reduction_matrix.columns.cv()@)),
        r.left == &boundary, r.right == &reduction_matrix, r.m_wf(), dmap(&r.left) == dmap(&boundary),
        forall|i: int| 0 <= i < b.len() ==> reduction_matrix.m_dom(#[trigger] b[i]) && r.m_dom(b[i]),
        vpit0.seq().len() == b.len(), forall|u: int| 0 <= u < b.len() ==> #[trigger] vpit0.seq()[u] == ord(b.len() as int, reverse_order, u),
        read_inv(f, a, b, reverse_order, vpit0.index@, essential@, pairings@),
@loopstart 0
    let ghost (ess0, par0, t0) = (essential@, pairings@, vpit0.index@);
    let ghost x0 = b[ord(b.len() as int, reverse_order, t0)];
    proof { lawful_clone::<M::RowT>(); }
@before match#0
    let ghost h0 = r_i.heap.seq();
    proof { assert(r.m_col(x0) == a(x0)); }
@after match#0
    proof { lemma_read(f, a, b, reverse_order, t0, h0, ess0, par0, essential@, pairings@); }
@end
    proof { lemma_read_done(f, a, b, reverse_order, vp_ret.essential@, vp_ret.pairings@); }
@@fn standard_algo_with_diagram
@ret r
@spec
    requires
        boundary.m_wf(), boundary.f_wf(), boundary.c_wf(), is_field::<M::CoefficientField>(),
        distinct(boundary.m_basis().b_seq()),
        forall|i: int| 0 <= i < boundary.m_basis().b_seq().len() ==> boundary.m_dom(#[trigger] boundary.m_basis().b_seq()[i]),
    ensures
        rdv_ok(fmap(&boundary), dmap(&boundary), boundary.m_basis().b_seq(), r.0.columns.cv()@),
        diagram_of(fmap(&boundary), rcol(dmap(&boundary), vmap(r.0.columns.cv()@)), boundary.m_basis().b_seq(), reverse_order, r.1.essential@, r.1.pairings@),
@start
    proof {
        boundary.m_ring();
        assert(dmap(&&boundary) =~= dmap(&boundary));
        assert(fmap(&&boundary) =~= fmap(&boundary));
        lemma_rdv_rows::<M>(&boundary);
    }

@@append
/// the stored columns
pub open spec fn vmap<C, K>(v: Map<K, Vec<(C, K)>>) -> spec_fn(K) -> Seq<(C, K)> { |k: K| v[k]@ }
/// a stored column of V: unit at its own element, otherwise earlier elements, each row once
pub open spec fn vcol_ok<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, b: Seq<K>, j: int) -> bool {
    &&& distinct_rows(s)
    &&& coef(s, b[j]) == sone::<C>()
    &&& forall|i: int| 0 <= i < s.len() ==> upto(b, (#[trigger] s[i]).1, j)
}
/// `d` shifts the degree by `sgn`
pub open spec fn hom<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, deg: spec_fn(K) -> int, sgn: int) -> bool {
    forall|k: int, x: K| 0 <= k < b.len() && (#[trigger] coef(d(#[trigger] b[k]), x)) is Some ==> deg(x) == deg(b[k]) + sgn
}
pub open spec fn vhom<C: NonZeroCoefficient, K>(deg: spec_fn(K) -> int, s: Seq<(C, K)>, e: K) -> bool {
    forall|x: K| (#[trigger] coef(s, x)) is Some ==> deg(x) == deg(e)
}
/// The contract of the standard algorithm: V has exactly the columns `b`, is unitriangular and
/// respects every grading of D; the non-zero columns of DV have pairwise distinct leads.
pub open spec fn rdv_ok<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>) -> bool {
    &&& forall|k: K| #[trigger] v.dom().contains(k) <==> b.contains(k)
    &&& forall|j: int| 0 <= j < b.len() ==> vcol_ok(#[trigger] v[b[j]]@, b, j)
    &&& distinct_leads(f, rcol(d, vmap(v)), b)
    &&& forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) ==> forall|j: int| 0 <= j < b.len() ==> vhom(deg, #[trigger] v[b[j]]@, b[j])
}
pub open spec fn low_ok<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>, p: K, e: (K, C), n: int) -> bool {
    upto(b, e.0, n - 1) && is_lead(f, mulcol(d, v[e.0]@), p) && coef(mulcol(d, v[e.0]@), p) == Some(e.1)
}
#[verifier::opaque]
pub open spec fn std_inv<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>, low: Map<K, (K, C)>, n: int) -> bool {
    &&& forall|k: K| #[trigger] v.dom().contains(k) <==> upto(b, k, n - 1)
    &&& forall|j: int| 0 <= j < n ==> vcol_ok(v[#[trigger] b[j]]@, b, j)
    &&& forall|p: K| #[trigger] low.dom().contains(p) ==> low_ok(f, d, b, v, p, low[p], n)
    &&& forall|j: int, p: K| 0 <= j < n && #[trigger] is_lead(f, mulcol(d, v[b[j]]@), p) ==> low.dom().contains(p) && low[p].0 == b[j]
    &&& forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) ==> forall|j: int| 0 <= j < n ==> vhom(deg, v[#[trigger] b[j]]@, b[j])
}
#[verifier::opaque]
pub open spec fn red_inv<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>) -> bool {
    &&& eqv(pairs(r), mulcol(d, pairs(v)))
    &&& fil_by(r, f) && consistent(r) && consistent(v)
    &&& coef(pairs(v), b[n]) == sone::<C>()
    &&& forall|i: int| 0 <= i < v.len() ==> upto(b, (#[trigger] v[i]).row_index, n)
    &&& forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) ==> vhom(deg, pairs(v), b[n])
}
/// nothing to add any more
pub open spec fn reduced<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, s: Seq<(C, K)>, low: Map<K, (K, C)>) -> bool {
    is_null(s) || exists|p: K| #[trigger] is_lead(f, s, p) && !low.dom().contains(p)
}
pub open spec fn scaled_entry<F: FiltrationValue, R: BasisElement, C: NonZeroCoefficient>(r: ColumnEntry<F, R, C>, e: ColumnEntry<F, R, C>, c: C) -> bool {
    r.coeff == <C as MulSpec<C>>::mul_spec(e.coeff, c) && r.row_index == e.row_index && r.filtration_value == e.filtration_value
}
pub open spec fn scaled_entries<F: FiltrationValue, R: BasisElement, C: NonZeroCoefficient>(m: Seq<ColumnEntry<F, R, C>>, e: Seq<ColumnEntry<F, R, C>>, c: C) -> bool {
    m.len() == e.len() && forall|i: int| #![trigger m[i]] #![trigger e[i]] 0 <= i < m.len() ==> scaled_entry(m[i], e[i], c)
}
/// `s` is `t` plus `c` times `x`
pub open spec fn is_added<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, t: Seq<(C, R)>, x: Seq<(C, R)>, c: C) -> bool {
    forall|q: R| #[trigger] coef(s, q) == sadd(coef(t, q), smul(coef(x, q), Some(c)))
}
pub open spec fn low_next<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, s: Seq<(C, K)>, low: Map<K, (K, C)>, low2: Map<K, (K, C)>, e: K) -> bool {
    ||| is_null(s) && low2 == low
    ||| exists|p: K| #[trigger] is_lead(f, s, p) && !low.dom().contains(p) && low2 == low.insert(p, (e, coef(s, p)->0))
}

pub proof fn unit_fil<R: BasisElement, C>(s: Seq<ColumnEntry<Unit, R, C>>)
    ensures fil_by(s, |r: R| Unit), consistent(s),
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).filtration_value == Unit by { assert(is_unit(s[i].filtration_value)); }
    fil_by_consistent(s, |r: R| Unit);
}
pub proof fn pivot_lead<F: FiltrationValue, C: NonZeroCoefficient, R: BasisElement>(f: spec_fn(R) -> F, s: Seq<ColumnEntry<F, R, C>>, e: ColumnEntry<F, R, C>)
    requires fil_by(s, f), is_pivot(s, e),
    ensures is_lead(f, pairs(s), e.row_index), coef(pairs(s), e.row_index) == Some(e.coeff), e.filtration_value == f(e.row_index),
{
    assert forall|x: R| (#[trigger] coef(pairs(s), x)) is Some implies x == e.row_index || rlt(f, x, e.row_index) by {
        coef_some_row(pairs(s), x);
        let i = choose|i: int| 0 <= i < pairs(s).len() && (#[trigger] pairs(s)[i]).1 == x;
        assert(s[i].row_index == x);
    }
}
pub proof fn lemma_start<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>)
    requires
        is_ring::<C>(), 0 <= n < b.len(), eqv(pairs(r), d(b[n])), fil_by(r, f), v.len() == 1, v[0].coeff == C::one_spec(), v[0].row_index == b[n],
    ensures red_inv(f, d, b, n, r, v),
{
    reveal(red_inv); 
    let s = pairs(v);
    fil_by_consistent(r, f);
    unit_fil(v);
    assert(s =~= seq![(C::one_spec(), b[n])]);
    assert(s.drop_last() =~= Seq::empty());
    assert forall|x: K| #[trigger] coef(s, x) == (if x == b[n] { sone::<C>() } else { None::<C> }) by { coef_empty::<C, K>(x); }
    assert forall|x: K| #[trigger] coef(pairs(r), x) == coef(mulcol(d, s), x) by {
        mulcol_coef(d, s, x);
        smul_one(coef(d(b[n]), x));
        assert(mulc(d, s.drop_last(), x) is None);
        assert(coef(pairs(r), x) == coef(d(b[n]), x));
    }
    assert forall|i: int| 0 <= i < v.len() implies upto(b, (#[trigger] v[i]).row_index, n) by { assert(b[n] == v[i].row_index); }
}
pub proof fn lemma_zero<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r0: Seq<ColumnEntry<F, K, C>>, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>)
    requires red_inv(f, d, b, n, r0, v), vanishes(r0), r.len() == 0,
    ensures red_inv(f, d, b, n, r, v), is_null(pairs(r)),
{
    reveal(red_inv); 
    assert forall|x: K| (#[trigger] coef(pairs(r), x)) is None by { coef_absent(pairs(r), x); }
    assert forall|x: K| #[trigger] coef(pairs(r), x) == coef(mulcol(d, pairs(v)), x) by { assert(coef(pairs(r0), x) is None); assert(coef(pairs(r0), x) == coef(mulcol(d, pairs(v)), x)); }
}
/// after the pivot has been pushed back
pub proof fn lemma_pushed<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r0: Seq<ColumnEntry<F, K, C>>, h1: Seq<ColumnEntry<F, K, C>>, r2: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>, e: ColumnEntry<F, K, C>)
    requires
        red_inv(f, d, b, n, r0, v), is_pivot(r0, e), within(h1, r0), r2 == h1.push(e),
        forall|x: K| #![trigger coef(pairs(h1), x)] coef(pairs(h1), x) == (if x == e.row_index { None } else { coef(pairs(r0), x) }),
    ensures
        red_inv(f, d, b, n, r2, v), eqv(pairs(r2), pairs(r0)), fil_by(r2, f),
        is_lead(f, pairs(r2), e.row_index), coef(pairs(r2), e.row_index) == Some(e.coeff),
{
    reveal(red_inv); 
    pivot_lead(f, r0, e);
    pairs_push(h1, e);
    assert forall|x: K| #[trigger] coef(pairs(r2), x) == coef(pairs(r0), x) by { coef_push(pairs(h1), (e.coeff, e.row_index), x); assert(coef(pairs(h1), x) == (if x == e.row_index { None } else { coef(pairs(r0), x) })); }
    assert forall|i: int| 0 <= i < r2.len() implies (#[trigger] r2[i]).filtration_value == f(r2[i].row_index) by {
        if i < h1.len() { assert(r0.contains(h1[i])); let j = r0.index_of(h1[i]); assert(r0[j] == r2[i]); }
    }
    fil_by_consistent(r2, f);
    assert forall|x: K| #[trigger] coef(pairs(r2), x) == coef(mulcol(d, pairs(v)), x) by { assert(coef(pairs(r0), x) == coef(mulcol(d, pairs(v)), x)); }
    lead_congr(f, pairs(r0), pairs(r2));
}
pub proof fn lemma_added<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(h: Seq<ColumnEntry<F, K, C>>, es: Seq<ColumnEntry<F, K, C>>, ms: Seq<ColumnEntry<F, K, C>>, x: Seq<(C, K)>, m: C)
    requires is_ring::<C>(), eqv(pairs(es), x), scaled_entries(ms, es, m),
    ensures is_added(pairs(h + ms), pairs(h), x, m),
        forall|f: spec_fn(K) -> F| #[trigger] fil_by(es, f) && fil_by(h, f) ==> fil_by(h + ms, f),
{
    pairs_append(h, ms);
    scaled_by_terms(pairs(ms), pairs(es), x, m);
    assert forall|q: K| #[trigger] coef(pairs(h + ms), q) == sadd(coef(pairs(h), q), smul(coef(x, q), Some(m))) by {
        coef_append(pairs(h), pairs(ms), q);
        assert(coef(pairs(ms), q) == smul(coef(x, q), Some(m)));
    }
    assert forall|f: spec_fn(K) -> F| #[trigger] fil_by(es, f) && fil_by(h, f) implies fil_by(h + ms, f) by {
        assert forall|i: int| 0 <= i < (h + ms).len() implies (#[trigger] (h + ms)[i]).filtration_value == f((h + ms)[i].row_index) by {
            if i >= h.len() { assert(scaled_entry(ms[i - h.len()], es[i - h.len()], m)); }
        }
    }
}
/// rows of the stored columns are early elements
pub proof fn lemma_rows<C: NonZeroCoefficient, K: BasisElement>(b: Seq<K>, v: Map<K, Vec<(C, K)>>, n: int)
    requires
        0 <= n <= b.len(),
        forall|k: K| #[trigger] v.dom().contains(k) <==> upto(b, k, n - 1),
        forall|j: int| 0 <= j < n ==> vcol_ok(v[#[trigger] b[j]]@, b, j),
    ensures forall|c: K, i: int| v.dom().contains(c) && 0 <= i < v[c]@.len() ==> upto(b, (#[trigger] v[c]@[i]).1, n - 1),
{
    assert forall|c: K, i: int| v.dom().contains(c) && 0 <= i < v[c]@.len() implies upto(b, (#[trigger] v[c]@[i]).1, n - 1) by {
        let j = choose|j: int| 0 <= j <= n - 1 && j < b.len() && #[trigger] b[j] == c;
        assert(vcol_ok(v[b[j]]@, b, j));
        let x = v[c]@[i].1;
        let k = choose|k: int| 0 <= k <= j && k < b.len() && #[trigger] b[k] == x;
        assert(b[k] == x);
    }
}
pub proof fn lemma_step<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, vm: Map<K, Vec<(C, K)>>, low: Map<K, (K, C)>,
    r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>, r3: Seq<ColumnEntry<F, K, C>>, v3: Seq<ColumnEntry<Unit, K, C>>, e: ColumnEntry<F, K, C>)
    requires
        is_field::<C>(), 0 <= n < b.len(), distinct(b), std_inv(f, d, b, vm, low, n), red_inv(f, d, b, n, r, v),
        is_lead(f, pairs(r), e.row_index), coef(pairs(r), e.row_index) == Some(e.coeff),
        low.dom().contains(e.row_index), fil_by(r3, f),
        forall|i: int| 0 <= i < v3.len() ==> upto(b, (#[trigger] v3[i]).row_index, n),
        ({
            let (bj, y) = low[e.row_index];
            let m = <C as MulSpec<C>>::mul_spec(e.coeff.neg_spec(), y.inv_spec());
            is_added(pairs(r3), pairs(r), mulcol(d, vm[bj]@), m) && is_added(pairs(v3), pairs(v), vm[bj]@, m)
        }),
    ensures
        red_inv(f, d, b, n, r3, v3),
        count_dom(f, pairs(r3), rows_upto(d, b, n + 1)) < count_dom(f, pairs(r), rows_upto(d, b, n + 1)),
{
    reveal(red_inv); reveal(std_inv); 
    field_ring::<C>();
    let p = e.row_index;
    let (bj, y) = low[p];
    let vj = vm[bj]@;
    let m = <C as MulSpec<C>>::mul_spec(e.coeff.neg_spec(), y.inv_spec());
    assert(low_ok(f, d, b, vm, p, low[p], n));
    eliminate(f, d, pairs(r), pairs(v), pairs(r3), pairs(v3), vj, p, e.coeff, y);
    fil_by_consistent(r3, f);
    unit_fil(v3);
    let j = choose|j: int| 0 <= j <= n - 1 && j < b.len() && #[trigger] b[j] == bj;
    assert(vcol_ok(vm[b[j]]@, b, j));
    // the unit at the own element stays
    assert(coef(vj, b[n]) is None) by {
        if coef(vj, b[n]) is Some {
            coef_some_row(vj, b[n]);
            let i = choose|i: int| 0 <= i < vj.len() && (#[trigger] vj[i]).1 == b[n];
            assert(upto(b, vj[i].1, j));
            let k = choose|k: int| 0 <= k <= j && k < b.len() && #[trigger] b[k] == b[n];
            assert(b[k] != b[n]);
        }
    }
    assert(coef(pairs(v3), b[n]) == sadd(coef(pairs(v), b[n]), smul(coef(vj, b[n]), Some(m))));
    // gradings
    supp_of_rows(b, v, n);
    supp_of_pairs(b, vj, j);
    assert(coef(pairs(r), p) == coef(mulcol(d, pairs(v)), p));
    lemma_step_deg(d, b, n, pairs(v), pairs(v3), vj, j, p, m);
    assert forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) implies vhom(deg, pairs(v3), b[n]) by {
        assert(vhom(deg, vm[b[j]]@, b[j]));
        assert(vhom(deg, pairs(v), b[n]));
    }
    // termination
    comb_rows(d, b, pairs(v), n, p);
    count_mono(f, pairs(r), pairs(r3), rows_upto(d, b, n + 1), p);
}
pub proof fn lemma_step_deg<C: NonZeroCoefficient, K: BasisElement>(d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, v: Seq<(C, K)>, v3: Seq<(C, K)>, vj: Seq<(C, K)>, j: int, p: K, m: C)
    requires
        is_ring::<C>(), 0 <= j < n < b.len(), supp_upto(b, v, n), supp_upto(b, vj, j), is_added(v3, v, vj, m),
        coef(mulcol(d, v), p) is Some, coef(mulcol(d, vj), p) is Some,
    ensures
        forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) && vhom(deg, v, b[n]) && vhom(deg, vj, b[j]) ==> vhom(deg, v3, b[n]),
{
    assert forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) && vhom(deg, v, b[n]) && vhom(deg, vj, b[j]) implies vhom(deg, v3, b[n]) by {
        deg_of_col(d, b, deg, sgn, v, n, p);
        deg_of_col(d, b, deg, sgn, vj, j, p);
        assert forall|x: K| (#[trigger] coef(v3, x)) is Some implies deg(x) == deg(b[n]) by {
            if coef(v, x) is None { assert(coef(vj, x) is Some); }
        }
    }
}
/// what the code needs to know about the column in progress
pub proof fn red_facts<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>)
    requires red_inv(f, d, b, n, r, v),
    ensures fil_by(r, f), consistent(r), consistent(v), coef(pairs(v), b[n]) == sone::<C>(),
        forall|i: int| 0 <= i < v.len() ==> upto(b, (#[trigger] v[i]).row_index, n),
{ reveal(red_inv); }
pub proof fn std_facts<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>, low: Map<K, (K, C)>, n: int)
    requires std_inv(f, d, b, v, low, n), 0 <= n <= b.len(),
    ensures
        forall|p: K| #[trigger] low.dom().contains(p) ==> v.dom().contains(low[p].0),
        forall|c: K, i: int| v.dom().contains(c) && 0 <= i < v[c]@.len() ==> upto(b, (#[trigger] v[c]@[i]).1, n - 1) && b.contains(v[c]@[i].1),
{
    reveal(std_inv);
    lemma_rows(b, v, n);
    assert forall|p: K| #[trigger] low.dom().contains(p) implies v.dom().contains(low[p].0) by { assert(low_ok(f, d, b, v, p, low[p], n)); }
    assert forall|c: K, i: int| v.dom().contains(c) && 0 <= i < v[c]@.len() implies upto(b, (#[trigger] v[c]@[i]).1, n - 1) && b.contains(v[c]@[i].1) by {
        let x = v[c]@[i].1;
        let k = choose|k: int| 0 <= k <= n - 1 && k < b.len() && #[trigger] b[k] == x;
        assert(b.contains(b[k]));
    }
}
pub proof fn supp_of_rows<C: NonZeroCoefficient, K: BasisElement>(b: Seq<K>, v: Seq<ColumnEntry<Unit, K, C>>, n: int)
    requires forall|i: int| 0 <= i < v.len() ==> upto(b, (#[trigger] v[i]).row_index, n),
    ensures supp_upto(b, pairs(v), n),
{
    assert forall|x: K| (#[trigger] coef(pairs(v), x)) is Some implies upto(b, x, n) by {
        coef_some_row(pairs(v), x);
        let i = choose|i: int| 0 <= i < pairs(v).len() && (#[trigger] pairs(v)[i]).1 == x;
        assert(v[i].row_index == x);
    }
}
pub proof fn supp_of_pairs<C: NonZeroCoefficient, K: BasisElement>(b: Seq<K>, v: Seq<(C, K)>, n: int)
    requires forall|i: int| 0 <= i < v.len() ==> upto(b, (#[trigger] v[i]).1, n),
    ensures supp_upto(b, v, n),
{
    assert forall|x: K| (#[trigger] coef(v, x)) is Some implies upto(b, x, n) by { coef_some_row(v, x); }
}
/// rows of D v have the degree of v, shifted
pub proof fn deg_of_col<C: NonZeroCoefficient, K: BasisElement>(d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, deg: spec_fn(K) -> int, sgn: int, v: Seq<(C, K)>, n: int, p: K)
    requires is_ring::<C>(), 0 <= n < b.len(), hom(d, b, deg, sgn), supp_upto(b, v, n), vhom(deg, v, b[n]), coef(mulcol(d, v), p) is Some,
    ensures deg(p) == deg(b[n]) + sgn,
{
    mulcol_coef(d, v, p);
    if forall|k: K| (#[trigger] coef(v, k)) is Some ==> coef(d(k), p) is None { mulc_null(d, v, p); }
    let k = choose|k: K| (#[trigger] coef(v, k)) is Some && coef(d(k), p) is Some;
    assert(upto(b, k, n));
    let i = choose|i: int| 0 <= i <= n && i < b.len() && #[trigger] b[i] == k;
    assert(coef(d(b[i]), p) is Some);
}
pub proof fn lemma_low<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>, low: Map<K, (K, C)>, low2: Map<K, (K, C)>)
    requires
        red_inv(f, d, b, n, r, v), reduced(f, pairs(r), low),
        (vanishes(r) && low2 == low) || exists|e: ColumnEntry<F, K, C>| #[trigger] is_pivot(r, e) && low2 == low.insert(e.row_index, (b[n], e.coeff)),
    ensures low_next(f, mulcol(d, pairs(v)), low, low2, b[n]),
{
    reveal(red_inv); 
    let s = mulcol(d, pairs(v));
    lead_congr(f, pairs(r), s);
    if vanishes(r) && low2 == low {
        assert(is_null(pairs(r)));
    } else {
        let e = choose|e: ColumnEntry<F, K, C>| #[trigger] is_pivot(r, e) && low2 == low.insert(e.row_index, (b[n], e.coeff));
        pivot_lead(f, r, e);
        lead_not_null(f, pairs(r), e.row_index);
        let p = choose|p: K| #[trigger] is_lead(f, pairs(r), p) && !low.dom().contains(p);
        lead_unique(f, pairs(r), p, e.row_index);
        assert(is_lead(f, s, e.row_index));
        assert(coef(s, e.row_index) == coef(pairs(r), e.row_index));
    }
}
pub proof fn lemma_vcol<C: NonZeroCoefficient, K: BasisElement>(b: Seq<K>, n: int, v: Seq<ColumnEntry<Unit, K, C>>, nc: Seq<(C, K)>)
    requires
        is_ring::<C>(), coef(pairs(v), b[n]) == sone::<C>(), forall|i: int| 0 <= i < v.len() ==> upto(b, (#[trigger] v[i]).row_index, n),
    ensures
        forall|es: Seq<ColumnEntry<Unit, K, C>>| #[trigger] decreasing(es) && eqv(pairs(es), pairs(v)) && within_key(es, v) && es.len() == nc.len()
            && (forall|i: int| 0 <= i < nc.len() ==> (#[trigger] nc[i]) == (es[i].coeff, es[i].row_index))
            ==> vcol_ok(nc, b, n) && eqv(nc, pairs(v)),
{
    assert forall|es: Seq<ColumnEntry<Unit, K, C>>| #[trigger] decreasing(es) && eqv(pairs(es), pairs(v)) && within_key(es, v) && es.len() == nc.len()
            && (forall|i: int| 0 <= i < nc.len() ==> (#[trigger] nc[i]) == (es[i].coeff, es[i].row_index))
            implies vcol_ok(nc, b, n) && eqv(nc, pairs(v)) by {
        assert(nc =~= pairs(es));
        unit_lawful(); K::lawful_elem(); decreasing_distinct(es);
        assert(coef(nc, b[n]) == coef(pairs(v), b[n]));
        assert forall|i: int| 0 <= i < nc.len() implies upto(b, (#[trigger] nc[i]).1, n) by {
            assert(has_key(v, es[i].filtration_value, es[i].row_index));
            let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).row_index == es[i].row_index && v[k].filtration_value == es[i].filtration_value;
            assert(upto(b, v[k].row_index, n));
        }
    }
}
pub proof fn lemma_save<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>,
    vm: Map<K, Vec<(C, K)>>, vm2: Map<K, Vec<(C, K)>>, low: Map<K, (K, C)>, low2: Map<K, (K, C)>)
    requires
        is_ring::<C>(), 0 <= n < b.len(), distinct(b), std_inv(f, d, b, vm, low, n), red_inv(f, d, b, n, r, v), low_next(f, mulcol(d, pairs(v)), low, low2, b[n]),
        vm2 == vm.insert(b[n], vm2[b[n]]), vcol_ok(vm2[b[n]]@, b, n), eqv(vm2[b[n]]@, pairs(v)),
    ensures std_inv(f, d, b, vm2, low2, n + 1),
{
    reveal(red_inv); reveal(std_inv); 
    let s = vm2[b[n]]@;
    mulcol_congr(d, s, pairs(v));
    lead_congr(f, mulcol(d, s), mulcol(d, pairs(v)));
    assert forall|k: K| #[trigger] vm2.dom().contains(k) <==> upto(b, k, n) by {
        if vm2.dom().contains(k) {
            if k == b[n] { assert(b[n] == k); } else { assert(vm.dom().contains(k)); let i = choose|i: int| 0 <= i <= n - 1 && i < b.len() && #[trigger] b[i] == k; assert(b[i] == k); }
        }
        if upto(b, k, n) {
            let i = choose|i: int| 0 <= i <= n && i < b.len() && #[trigger] b[i] == k;
            if i < n { assert(upto(b, k, n - 1)); assert(vm.dom().contains(k)); }
        }
    }
    assert forall|j: int| 0 <= j < n implies vm2[#[trigger] b[j]] == vm[b[j]] by { assert(b[j] != b[n]); }
    assert forall|p: K| #[trigger] low2.dom().contains(p) implies low_ok(f, d, b, vm2, p, low2[p], n + 1) by {
        if low.dom().contains(p) && low2[p] == low[p] {
            assert(low_ok(f, d, b, vm, p, low[p], n));
            let i = choose|i: int| 0 <= i <= n - 1 && i < b.len() && #[trigger] b[i] == low[p].0;
            assert(b[i] == low[p].0);
            assert(vm2[b[i]] == vm[b[i]]);
        } else {
            let q = choose|q: K| #[trigger] is_lead(f, mulcol(d, pairs(v)), q) && !low.dom().contains(q) && low2 == low.insert(q, (b[n], coef(mulcol(d, pairs(v)), q)->0));
            assert(p == q);
            assert(b[n] == low2[p].0);
            assert(coef(mulcol(d, s), p) == coef(mulcol(d, pairs(v)), p));
            assert(is_lead(f, mulcol(d, s), p));
        }
    }
    assert forall|j: int, p: K| 0 <= j < n + 1 && #[trigger] is_lead(f, mulcol(d, vm2[b[j]]@), p) implies low2.dom().contains(p) && low2[p].0 == b[j] by {
        if j < n {
            assert(vm2[b[j]] == vm[b[j]]);
            assert(is_lead(f, mulcol(d, vm[b[j]]@), p));
            assert(low.dom().contains(p));
        } else {
            assert(is_lead(f, mulcol(d, pairs(v)), p));
            lead_not_null(f, mulcol(d, pairs(v)), p);
            let q = choose|q: K| #[trigger] is_lead(f, mulcol(d, pairs(v)), q) && !low.dom().contains(q) && low2 == low.insert(q, (b[n], coef(mulcol(d, pairs(v)), q)->0));
            lead_unique(f, mulcol(d, pairs(v)), p, q);
        }
    }
    assert forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) implies forall|j: int| 0 <= j < n + 1 ==> vhom(deg, vm2[#[trigger] b[j]]@, b[j]) by {
        assert forall|j: int| 0 <= j < n + 1 implies vhom(deg, vm2[#[trigger] b[j]]@, b[j]) by {
            if j < n { assert(vm2[b[j]] == vm[b[j]]); assert(vhom(deg, vm[b[j]]@, b[j])); } else {
                assert(vhom(deg, pairs(v), b[n]));
                assert forall|x: K| (#[trigger] coef(s, x)) is Some implies deg(x) == deg(b[n]) by { assert(coef(s, x) == coef(pairs(v), x)); }
            }
        }
    }
}
pub proof fn lemma_std_done<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>, low: Map<K, (K, C)>)
    requires distinct(b), std_inv(f, d, b, v, low, b.len() as int),
    ensures rdv_ok(f, d, b, v),
{
    reveal(std_inv); 
    let n = b.len() as int;
    assert forall|k: K| #[trigger] v.dom().contains(k) <==> b.contains(k) by {
        if v.dom().contains(k) { let i = choose|i: int| 0 <= i <= n - 1 && i < b.len() && #[trigger] b[i] == k; assert(b.contains(b[i])); }
        if b.contains(k) { let i = b.index_of(k); assert(b[i] == k); assert(upto(b, k, n - 1)); }
    }
    let a = rcol(d, vmap(v));
    assert forall|i: int, j: int, p: K| 0 <= i < b.len() && 0 <= j < b.len() && #[trigger] is_lead(f, a(b[i]), p) && #[trigger] is_lead(f, a(b[j]), p) implies i == j by {
        assert(is_lead(f, mulcol(d, v[b[i]]@), p) && is_lead(f, mulcol(d, v[b[j]]@), p));
    }
    assert forall|j: int| 0 <= j < b.len() implies vcol_ok(#[trigger] v[b[j]]@, b, j) by {}
    assert forall|deg: spec_fn(K) -> int, sgn: int| #[trigger] hom(d, b, deg, sgn) implies forall|j: int| 0 <= j < b.len() ==> vhom(deg, #[trigger] v[b[j]]@, b[j]) by {
        assert forall|j: int| 0 <= j < b.len() implies vhom(deg, #[trigger] v[b[j]]@, b[j]) by { assert(vhom(deg, v[b[j]]@, b[j])); }
    }
}

// ------------------------------------------------------------ reading the diagram

/// position processed in step `u`
pub open spec fn ord(n: int, rev: bool, u: int) -> int { if rev { n - 1 - u } else { u } }
/// `k` is processed after `i`
pub open spec fn later(rev: bool, k: int, i: int) -> bool { if rev { k < i } else { k > i } }
/// The contract of the diagram read-off: pairs are exactly (lead, column); essential are the zero
/// columns that are not the lead of a column processed later.
pub open spec fn diagram_of<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, ess: Set<K>, par: Set<(K, K)>) -> bool {
    &&& forall|p: K, x: K| #[trigger] par.contains((p, x)) <==> b.contains(x) && is_lead(f, a(x), p)
    &&& forall|x: K| #[trigger] ess.contains(x) <==> exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == x && is_null(a(x)) && unled(f, a, b, rev, i, x)
}
pub open spec fn unled<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, i: int, x: K) -> bool {
    forall|k: int| 0 <= k < b.len() && later(rev, k, i) ==> !is_lead(f, a(#[trigger] b[k]), x)
}
pub open spec fn read_pair<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, t: int, p: K, x: K) -> bool {
    exists|u: int| 0 <= u < t && #[trigger] b[ord(b.len() as int, rev, u)] == x && is_lead(f, a(x), p)
}
pub open spec fn read_ess<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, t: int, x: K) -> bool {
    exists|u: int| 0 <= u < t && #[trigger] b[ord(b.len() as int, rev, u)] == x && is_null(a(x)) && forall|w: int| u < w < t ==> !is_lead(f, a(#[trigger] b[ord(b.len() as int, rev, w)]), x)
}
#[verifier::opaque]
pub open spec fn read_inv<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, t: int, ess: Set<K>, par: Set<(K, K)>) -> bool {
    &&& forall|p: K, x: K| #[trigger] par.contains((p, x)) <==> read_pair(f, a, b, rev, t, p, x)
    &&& forall|x: K| #[trigger] ess.contains(x) <==> read_ess(f, a, b, rev, t, x)
}
pub proof fn lemma_read<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, t: int, h: Seq<ColumnEntry<F, K, C>>, ess: Set<K>, par: Set<(K, K)>, ess2: Set<K>, par2: Set<(K, K)>)
    requires
        0 <= t < b.len(), distinct(b), read_inv(f, a, b, rev, t, ess, par),
        eqv(pairs(h), a(b[ord(b.len() as int, rev, t)])), fil_by(h, f),
        (vanishes(h) && ess2 == ess.insert(b[ord(b.len() as int, rev, t)]) && par2 == par)
        || exists|e: ColumnEntry<F, K, C>| #[trigger] is_pivot(h, e) && par2 == par.insert((e.row_index, b[ord(b.len() as int, rev, t)])) && ess2 == ess.remove(e.row_index),
    ensures read_inv(f, a, b, rev, t + 1, ess2, par2),
{
    reveal(read_inv);
    let n = b.len() as int;
    let y = b[ord(n, rev, t)];
    lead_congr(f, pairs(h), a(y));
    if vanishes(h) && ess2 == ess.insert(y) && par2 == par {
        assert(is_null(pairs(h)));
        assert forall|p: K| !#[trigger] is_lead(f, a(y), p) by { if is_lead(f, a(y), p) { lead_not_null(f, a(y), p); } }
        assert forall|p: K, x: K| #[trigger] par2.contains((p, x)) <==> read_pair(f, a, b, rev, t + 1, p, x) by {
            if read_pair(f, a, b, rev, t, p, x) { let u = choose|u: int| 0 <= u < t && #[trigger] b[ord(n, rev, u)] == x && is_lead(f, a(x), p); assert(b[ord(n, rev, u)] == x); }
            if read_pair(f, a, b, rev, t + 1, p, x) { let u = choose|u: int| 0 <= u < t + 1 && #[trigger] b[ord(n, rev, u)] == x && is_lead(f, a(x), p); assert(b[ord(n, rev, u)] == x); }
        }
        assert forall|x: K| #[trigger] ess2.contains(x) <==> read_ess(f, a, b, rev, t + 1, x) by {
            if x == y { assert(b[ord(n, rev, t)] == x); assert(read_ess(f, a, b, rev, t + 1, x)); }
            if read_ess(f, a, b, rev, t, x) {
                let u = choose|u: int| 0 <= u < t && #[trigger] b[ord(n, rev, u)] == x && is_null(a(x)) && forall|w: int| u < w < t ==> !is_lead(f, a(#[trigger] b[ord(n, rev, w)]), x);
                assert(b[ord(n, rev, u)] == x);
                assert(read_ess(f, a, b, rev, t + 1, x));
            }
            if read_ess(f, a, b, rev, t + 1, x) && x != y {
                let u = choose|u: int| 0 <= u < t + 1 && #[trigger] b[ord(n, rev, u)] == x && is_null(a(x)) && forall|w: int| u < w < t + 1 ==> !is_lead(f, a(#[trigger] b[ord(n, rev, w)]), x);
                assert(b[ord(n, rev, u)] == x);
                assert(read_ess(f, a, b, rev, t, x));
            }
        }
    } else {
        let e = choose|e: ColumnEntry<F, K, C>| #[trigger] is_pivot(h, e) && par2 == par.insert((e.row_index, y)) && ess2 == ess.remove(e.row_index);
        let q = e.row_index;
        pivot_lead(f, h, e);
        assert(is_lead(f, a(y), q));
        lead_not_null(f, a(y), q);
        assert forall|p: K| #[trigger] is_lead(f, a(y), p) <==> p == q by { if is_lead(f, a(y), p) { lead_unique(f, a(y), p, q); } }
        assert forall|p: K, x: K| #[trigger] par2.contains((p, x)) <==> read_pair(f, a, b, rev, t + 1, p, x) by {
            if read_pair(f, a, b, rev, t, p, x) { let u = choose|u: int| 0 <= u < t && #[trigger] b[ord(n, rev, u)] == x && is_lead(f, a(x), p); assert(b[ord(n, rev, u)] == x); }
            if (p, x) == (q, y) { assert(b[ord(n, rev, t)] == x); }
            if read_pair(f, a, b, rev, t + 1, p, x) { let u = choose|u: int| 0 <= u < t + 1 && #[trigger] b[ord(n, rev, u)] == x && is_lead(f, a(x), p); assert(b[ord(n, rev, u)] == x); }
        }
        assert forall|x: K| #[trigger] ess2.contains(x) <==> read_ess(f, a, b, rev, t + 1, x) by {
            if read_ess(f, a, b, rev, t, x) && x != q {
                let u = choose|u: int| 0 <= u < t && #[trigger] b[ord(n, rev, u)] == x && is_null(a(x)) && forall|w: int| u < w < t ==> !is_lead(f, a(#[trigger] b[ord(n, rev, w)]), x);
                assert(b[ord(n, rev, u)] == x);
                assert(read_ess(f, a, b, rev, t + 1, x));
            }
            if read_ess(f, a, b, rev, t + 1, x) {
                let u = choose|u: int| 0 <= u < t + 1 && #[trigger] b[ord(n, rev, u)] == x && is_null(a(x)) && forall|w: int| u < w < t + 1 ==> !is_lead(f, a(#[trigger] b[ord(n, rev, w)]), x);
                assert(b[ord(n, rev, u)] == x);
                assert(u != t);
                assert(!is_lead(f, a(b[ord(n, rev, t)]), x));
                assert(read_ess(f, a, b, rev, t, x));
            }
        }
    }
}
pub proof fn lemma_read_done<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, ess: Set<K>, par: Set<(K, K)>)
    requires read_inv(f, a, b, rev, b.len() as int, ess, par),
    ensures diagram_of(f, a, b, rev, ess, par),
{
    reveal(read_inv);
    let n = b.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] ord(n, rev, ord(n, rev, i)) == i by {}
    assert forall|p: K, x: K| #[trigger] par.contains((p, x)) <==> b.contains(x) && is_lead(f, a(x), p) by {
        if par.contains((p, x)) { let u = choose|u: int| 0 <= u < n && #[trigger] b[ord(n, rev, u)] == x && is_lead(f, a(x), p); assert(b[ord(n, rev, u)] == x); }
        if b.contains(x) && is_lead(f, a(x), p) { let i = b.index_of(x); assert(b[ord(n, rev, ord(n, rev, i))] == x); }
    }
    assert forall|x: K| #[trigger] ess.contains(x) <==> exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == x && is_null(a(x)) && unled(f, a, b, rev, i, x) by {
        if ess.contains(x) {
            let u = choose|u: int| 0 <= u < n && #[trigger] b[ord(n, rev, u)] == x && is_null(a(x)) && forall|w: int| u < w < n ==> !is_lead(f, a(#[trigger] b[ord(n, rev, w)]), x);
            let i = ord(n, rev, u);
            assert(b[i] == x);
            assert forall|k: int| 0 <= k < b.len() && later(rev, k, i) implies !is_lead(f, a(#[trigger] b[k]), x) by { assert(b[ord(n, rev, ord(n, rev, k))] == b[k]); }
            assert(unled(f, a, b, rev, i, x));
        }
        if exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == x && is_null(a(x)) && unled(f, a, b, rev, i, x) {
            let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x && is_null(a(x)) && unled(f, a, b, rev, i, x);
            assert(b[ord(n, rev, ord(n, rev, i))] == x);
            assert(read_ess(f, a, b, rev, n, x));
        }
    }
}
/// the columns of the standard algorithm's V may be multiplied by D
pub proof fn lemma_rdv_rows<M: MatrixOracle + SquareMatrix + HasRowFiltration + HasColBasis>(m: &M)
    requires
        forall|i: int| 0 <= i < m.m_basis().b_seq().len() ==> m.m_dom(#[trigger] m.m_basis().b_seq()[i]),
    ensures
        forall|v: StandardReductionMatrix<M::CoefficientField, M::ColT>| #[trigger] rdv_ok(fmap(m), dmap(m), m.m_basis().b_seq(), v.columns.cv()@) ==>
            (forall|i: int| 0 <= i < m.m_basis().b_seq().len() ==> v.m_dom(#[trigger] m.m_basis().b_seq()[i]))
            && (forall|x: M::ColT| #[trigger] v.m_row(x) ==> m.m_dom(x)),
{
    let b = m.m_basis().b_seq();
    assert forall|v: StandardReductionMatrix<M::CoefficientField, M::ColT>| #[trigger] rdv_ok(fmap(m), dmap(m), b, v.columns.cv()@) implies
            (forall|i: int| 0 <= i < b.len() ==> v.m_dom(#[trigger] b[i])) && (forall|x: M::ColT| #[trigger] v.m_row(x) ==> m.m_dom(x)) by {
        let vm = v.columns.cv()@;
        assert forall|i: int| 0 <= i < b.len() implies v.m_dom(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(vm.dom().contains(b[i])); }
        assert forall|x: M::ColT| #[trigger] v.m_row(x) implies m.m_dom(x) by {
            let (c, i) = choose|c: M::ColT, i: int| vm.dom().contains(c) && 0 <= i < vm[c]@.len() && (#[trigger] vm[c]@[i]).1 == x;
            let j = b.index_of(c);
            assert(vcol_ok(vm[b[j]]@, b, j));
            assert(upto(b, vm[c]@[i].1, j));
        }
    }
}

// ------------------------------------------------------------ the canonical pairing

/// `d` over the ordered basis `b` is a filtered (co)chain complex, which may be truncated: graded, d d = 0,
/// each degree listed in filtration order, degrees in ascending order; rows outside `b` are of degrees that
/// `b` does not have.
pub open spec fn complex<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, deg: spec_fn(K) -> int, sgn: int) -> bool {
    &&& distinct(b)
    &&& hom(d, b, deg, sgn)
    &&& forall|k: int, x: K, y: K| 0 <= k < b.len() && (#[trigger] coef(d(#[trigger] b[k]), x)) is Some && #[trigger] b.contains(y) && deg(y) == deg(b[k]) + sgn ==> b.contains(x)
    &&& forall|k: int| 0 <= k < b.len() ==> is_null(mulcol(d, d(#[trigger] b[k])))
    &&& forall|i: int, j: int| 0 <= i < j < b.len() && deg(#[trigger] b[i]) == deg(#[trigger] b[j]) ==> rlt(f, b[i], b[j])
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> deg(#[trigger] b[i]) <= deg(#[trigger] b[j])
}
/// the rows of every column are in `b`
pub open spec fn closed<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>) -> bool {
    forall|k: int, x: K| 0 <= k < b.len() && (#[trigger] coef(d(#[trigger] b[k]), x)) is Some ==> b.contains(x)
}
pub open spec fn is_birth<K>(par: Set<(K, K)>, x: K) -> bool { exists|y: K| #[trigger] par.contains((x, y)) }
pub open spec fn is_death<K>(par: Set<(K, K)>, x: K) -> bool { exists|p: K| #[trigger] par.contains((p, x)) }

/// the standard algorithm's result is a valid decomposition in the sense of the theory
pub proof fn rdv_valid<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>)
    requires distinct(b), rdv_ok(f, d, b, v),
    ensures valid(f, d, b, vmap(v)),
{
    assert forall|j: int| 0 <= j < b.len() implies tri(b, vmap(v)(#[trigger] b[j]), j) by {
        let s = v[b[j]]@;
        assert(vcol_ok(s, b, j));
        supp_of_pairs(b, s, j);
    }
}
/// the lead of a column of DV is a basis element, and its own column of DV is zero
pub proof fn lead_is_cycle<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, deg: spec_fn(K) -> int, sgn: int, v: Map<K, Vec<(C, K)>>, j: int, p: K) -> (i: int)
    requires is_field::<C>(), complex(f, d, b, deg, sgn), rdv_ok(f, d, b, v), 0 <= j < b.len(), is_lead(f, rcol(d, vmap(v))(b[j]), p), b.contains(p),
    ensures 0 <= i < b.len(), b[i] == p, is_null(rcol(d, vmap(v))(p)), deg(p) == deg(b[j]) + sgn,
{
    field_ring::<C>();
    rdv_valid(f, d, b, v);
    let s = vmap(v)(b[j]);
    let r = mulcol(d, s);
    assert(tri(b, s, j));
    assert(vhom(deg, v[b[j]]@, b[j]));
    // rows of r are basis elements of the shifted degree
    assert(deg(p) == deg(b[j]) + sgn) by { deg_of_col(d, b, deg, sgn, s, j, p); }
    assert forall|x: K| (#[trigger] coef(r, x)) is Some implies b.contains(x) && deg(x) == deg(b[j]) + sgn by {
        deg_of_col(d, b, deg, sgn, s, j, x);
        mulcol_coef(d, s, x);
        if forall|k: K| (#[trigger] coef(s, k)) is Some ==> coef(d(k), x) is None { mulc_null(d, s, x); }
        let k = choose|k: K| (#[trigger] coef(s, k)) is Some && coef(d(k), x) is Some;
        assert(upto(b, k, j));
        let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
        assert(coef(s, b[i]) is Some);
        assert(deg(b[i]) == deg(b[j]));
        assert(b.contains(p) && deg(p) == deg(b[i]) + sgn);
        assert(coef(d(b[i]), x) is Some);
    }
    assert(coef(r, p) is Some);
    let i = b.index_of(p);
    assert(b[i] == p);
    assert(tri(b, r, i)) by {
        assert forall|x: K| (#[trigger] coef(r, x)) is Some implies upto(b, x, i) by {
            let k = b.index_of(x);
            assert(b[k] == x);
            if k > i { assert(rlt(f, b[i], b[k])); rlt_total(f, p, x); }
        }
    }
    assert(is_null(mulcol(d, r))) by {
        mulcol_assoc(d, d, s);
        let dd = |k: K| mulcol(d, d(k));
        assert forall|x: K| (#[trigger] coef(mulcol(d, r), x)) is None by {
            assert(coef(mulcol(d, mulcol(d, s)), x) == coef(mulcol(dd, s), x));
            mulcol_coef(dd, s, x);
            assert forall|k: K| (#[trigger] coef(s, k)) is Some implies coef(dd(k), x) is None by {
                assert(upto(b, k, j));
                let q = choose|q: int| 0 <= q <= j && q < b.len() && #[trigger] b[q] == k;
                assert(is_null(mulcol(d, d(b[q]))));
            }
            mulc_null(dd, s, x);
        }
    }
    cycle_null(f, d, b, vmap(v), r, i);
    i
}
/// a lead that is a basis element has a zero column and is read before the column it leads
pub open spec fn leads_read<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool) -> bool {
    forall|j: int, p: K| 0 <= j < b.len() && #[trigger] is_lead(f, a(b[j]), p) && b.contains(p) ==> is_null(a(p)) && later(rev, j, b.index_of(p))
}
pub open spec fn partition<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, ess: Set<K>, par: Set<(K, K)>) -> bool {
    &&& forall|x: K| #[trigger] ess.contains(x) <==> b.contains(x) && is_null(a(x)) && !is_birth(par, x)
    &&& forall|p: K, x: K| #[trigger] par.contains((p, x)) ==> b.contains(x) && p != x
    &&& forall|p: K, x: K, q: K, y: K| #[trigger] par.contains((p, x)) && #[trigger] par.contains((q, y)) ==> (p == q <==> x == y)
    &&& forall|x: K| #[trigger] b.contains(x) ==> {
            &&& ess.contains(x) || is_birth(par, x) || is_death(par, x)
            &&& !(ess.contains(x) && is_birth(par, x))
            &&& !(ess.contains(x) && is_death(par, x))
            &&& !(is_birth(par, x) && is_death(par, x))
        }
}
pub proof fn lemma_partition<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, a: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, rev: bool, ess: Set<K>, par: Set<(K, K)>)
    requires is_ring::<C>(), distinct(b), distinct_leads(f, a, b), leads_read(f, a, b, rev), diagram_of(f, a, b, rev, ess, par),
    ensures partition(f, a, b, ess, par),
{
    let n = b.len() as int;
    assert forall|p: K, x: K| #[trigger] par.contains((p, x)) implies b.contains(x) && p != x && (b.contains(p) ==> is_null(a(p))) && !is_null(a(x)) by {
        let j = b.index_of(x);
        assert(is_lead(f, a(b[j]), p));
        lead_not_null(f, a(x), p);
    }
    assert forall|p: K, x: K, q: K, y: K| #[trigger] par.contains((p, x)) && #[trigger] par.contains((q, y)) implies (p == q <==> x == y) by {
        let (i, j) = (b.index_of(x), b.index_of(y));
        if p == q { assert(is_lead(f, a(b[i]), p) && is_lead(f, a(b[j]), p)); }
        if x == y { lead_unique(f, a(x), p, q); }
    }
    assert forall|x: K| #[trigger] ess.contains(x) <==> b.contains(x) && is_null(a(x)) && !is_birth(par, x) by {
        if b.contains(x) && is_null(a(x)) && !is_birth(par, x) {
            let i = b.index_of(x);
            assert(b[i] == x);
            assert forall|k: int| 0 <= k < b.len() && later(rev, k, i) implies !is_lead(f, a(#[trigger] b[k]), x) by {
                assert(b.contains(b[k]));
                if is_lead(f, a(b[k]), x) { assert(par.contains((x, b[k]))); }
            }
            assert(unled(f, a, b, rev, i, x));
        }
        if ess.contains(x) {
            let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x && is_null(a(x)) && unled(f, a, b, rev, i, x);
            assert(b.contains(b[i]));
            if is_birth(par, x) {
                let y = choose|y: K| #[trigger] par.contains((x, y));
                let k = b.index_of(y);
                assert(b[k] == y);
                assert(is_lead(f, a(b[k]), x));
                assert(b[b.index_of(x)] == x);
                assert(b.index_of(x) == i);
                assert(later(rev, k, i));
            }
        }
    }
    assert forall|x: K| #[trigger] b.contains(x) implies {
            &&& ess.contains(x) || is_birth(par, x) || is_death(par, x)
            &&& !(ess.contains(x) && is_birth(par, x))
            &&& !(ess.contains(x) && is_death(par, x))
            &&& !(is_birth(par, x) && is_death(par, x))
        } by {
        lead_exists(f, a(x));
        if !is_null(a(x)) { let p = choose|p: K| #[trigger] is_lead(f, a(x), p); assert(par.contains((p, x))); }
        if is_birth(par, x) { let y = choose|y: K| #[trigger] par.contains((x, y)); assert(is_null(a(x))); }
        if is_death(par, x) { let p = choose|p: K| #[trigger] par.contains((p, x)); assert(!is_null(a(x))); }
    }
}
pub proof fn closed_row<C: Invertible, K: BasisElement>(d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, s: Seq<(C, K)>, j: int, x: K)
    requires is_field::<C>(), closed(d, b), 0 <= j < b.len(), tri(b, s, j), coef(mulcol(d, s), x) is Some,
    ensures b.contains(x),
{
    field_ring::<C>();
    mulcol_coef(d, s, x);
    if forall|k: K| (#[trigger] coef(s, k)) is Some ==> coef(d(k), x) is None { mulc_null(d, s, x); }
    let k = choose|k: K| (#[trigger] coef(s, k)) is Some && coef(d(k), x) is Some;
    assert(upto(b, k, j));
    let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
    assert(coef(d(b[i]), x) is Some);
}
/// The canonical pairing of a complex listed degree by degree: every basis element is exactly one of
/// essential, birth of one pair, death of one pair; the reading direction fitting the complex makes
/// the essential classes exactly the unpaired cycles.
pub proof fn theorem_partition<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, deg: spec_fn(K) -> int, sgn: int, v: Map<K, Vec<(C, K)>>, rev: bool, ess: Set<K>, par: Set<(K, K)>)
    requires
        is_field::<C>(), complex(f, d, b, deg, sgn), sgn == (if rev { 1int } else { -1 }),
        rdv_ok(f, d, b, v), diagram_of(f, rcol(d, vmap(v)), b, rev, ess, par),
    ensures partition(f, rcol(d, vmap(v)), b, ess, par), closed(d, b) ==> forall|p: K, x: K| #[trigger] par.contains((p, x)) ==> b.contains(p),
{
    field_ring::<C>();
    let a = rcol(d, vmap(v));
    if closed(d, b) {
        assert forall|p: K, x: K| #[trigger] par.contains((p, x)) implies b.contains(p) by {
            let j = b.index_of(x);
            rdv_valid(f, d, b, v);
            assert(tri(b, vmap(v)(b[j]), j));
            closed_row(d, b, vmap(v)(b[j]), j, p);
        }
    }
    assert forall|j: int, p: K| 0 <= j < b.len() && #[trigger] is_lead(f, a(b[j]), p) && b.contains(p) implies is_null(a(p)) && later(rev, j, b.index_of(p)) by {
        let i = lead_is_cycle(f, d, b, deg, sgn, v, j, p);
        assert(b[i] == p && b.contains(b[i]));
        assert(b[b.index_of(p)] == p);
        assert(b.index_of(p) == i);
        if rev { if j >= i { if j > i { assert(deg(b[i]) <= deg(b[j])); } } } else { if j <= i { if j < i { assert(deg(b[j]) <= deg(b[i])); } } }
    }
    lemma_partition(f, a, b, rev, ess, par);
}
/// `d` over `b` is a filtered complex whose cells are listed in the order of the filtration, each
/// after the cells of its boundary; no grading is needed
pub open spec fn sorted_complex<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>) -> bool {
    &&& distinct(b)
    &&& forall|k: int, x: K| 0 <= k < b.len() && (#[trigger] coef(d(#[trigger] b[k]), x)) is Some ==> b.contains(x) && rlt(f, x, b[k])
    &&& forall|k: int| 0 <= k < b.len() ==> is_null(mulcol(d, d(#[trigger] b[k])))
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> rlt(f, #[trigger] b[i], #[trigger] b[j])
}
pub proof fn sorted_row<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, s: Seq<(C, K)>, j: int, x: K)
    requires is_field::<C>(), sorted_complex(f, d, b), 0 <= j < b.len(), tri(b, s, j), coef(mulcol(d, s), x) is Some,
    ensures b.contains(x), 0 <= b.index_of(x) < j, b[b.index_of(x)] == x,
{
    field_ring::<C>();
    mulcol_coef(d, s, x);
    if forall|k: K| (#[trigger] coef(s, k)) is Some ==> coef(d(k), x) is None { mulc_null(d, s, x); }
    let k = choose|k: K| (#[trigger] coef(s, k)) is Some && coef(d(k), x) is Some;
    assert(upto(b, k, j));
    let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
    assert(coef(d(b[i]), x) is Some);
    let q = b.index_of(x);
    assert(b[q] == x);
    rlt_total(f, b[i], x);
    if q > i { assert(rlt(f, b[i], b[q])); }
}
/// a combination of columns of D is a cycle when D D = 0
pub proof fn image_is_cycle<C: Invertible, K: BasisElement>(d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, s: Seq<(C, K)>, j: int)
    requires is_field::<C>(), 0 <= j < b.len(), tri(b, s, j), forall|k: int| 0 <= k < b.len() ==> is_null(mulcol(d, d(#[trigger] b[k]))),
    ensures is_null(mulcol(d, mulcol(d, s))),
{
    field_ring::<C>();
    mulcol_assoc(d, d, s);
    let dd = |k: K| mulcol(d, d(k));
    assert forall|x: K| (#[trigger] coef(mulcol(d, mulcol(d, s)), x)) is None by {
        assert(coef(mulcol(d, mulcol(d, s)), x) == coef(mulcol(dd, s), x));
        mulcol_coef(dd, s, x);
        assert forall|k: K| (#[trigger] coef(s, k)) is Some implies coef(dd(k), x) is None by {
            assert(upto(b, k, j));
            let q = choose|q: int| 0 <= q <= j && q < b.len() && #[trigger] b[q] == k;
            assert(is_null(mulcol(d, d(b[q]))));
        }
        mulc_null(dd, s, x);
    }
}
pub proof fn sorted_lead_is_cycle<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>, j: int, p: K) -> (i: int)
    requires is_field::<C>(), sorted_complex(f, d, b), rdv_ok(f, d, b, v), 0 <= j < b.len(), is_lead(f, rcol(d, vmap(v))(b[j]), p),
    ensures 0 <= i < j, b[i] == p, is_null(rcol(d, vmap(v))(p)),
{
    rdv_valid(f, d, b, v);
    let s = vmap(v)(b[j]);
    let r = mulcol(d, s);
    assert(tri(b, s, j));
    sorted_row(f, d, b, s, j, p);
    let i = b.index_of(p);
    assert(tri(b, r, i)) by {
        assert forall|x: K| (#[trigger] coef(r, x)) is Some implies upto(b, x, i) by {
            sorted_row(f, d, b, s, j, x);
            let k = b.index_of(x);
            assert(b[k] == x && b[i] == p);
            if k > i { assert(rlt(f, b[i], b[k])); rlt_total(f, p, x); }
        }
    }
    image_is_cycle(d, b, s, j);
    cycle_null(f, d, b, vmap(v), r, i);
    i
}
/// The same for cells listed in filtration order.
pub proof fn theorem_partition_sorted<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: Map<K, Vec<(C, K)>>, ess: Set<K>, par: Set<(K, K)>)
    requires is_field::<C>(), sorted_complex(f, d, b), rdv_ok(f, d, b, v), diagram_of(f, rcol(d, vmap(v)), b, false, ess, par),
    ensures partition(f, rcol(d, vmap(v)), b, ess, par), forall|p: K, x: K| #[trigger] par.contains((p, x)) ==> b.contains(p),
{
    field_ring::<C>();
    let a = rcol(d, vmap(v));
    assert forall|p: K, x: K| #[trigger] par.contains((p, x)) implies b.contains(p) by {
        let j = b.index_of(x);
        let i = sorted_lead_is_cycle(f, d, b, v, j, p);
        assert(b.contains(b[i]));
    }
    assert forall|j: int, p: K| 0 <= j < b.len() && #[trigger] is_lead(f, a(b[j]), p) && b.contains(p) implies is_null(a(p)) && later(false, j, b.index_of(p)) by {
        let i = sorted_lead_is_cycle(f, d, b, v, j, p);
        assert(b[i] == p && b.contains(b[i]));
        assert(b[b.index_of(p)] == p);
    }
    lemma_partition(f, a, b, false, ess, par);
}
/// The pairs do not depend on how the decomposition was found.
pub proof fn theorem_canonical<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, v: spec_fn(K) -> Seq<(C, K)>, w: spec_fn(K) -> Seq<(C, K)>)
    requires is_field::<C>(), valid(f, d, b, v), valid(f, d, b, w),
    ensures
        forall|j: int, p: K| 0 <= j < b.len() ==> (#[trigger] is_lead(f, rcol(d, v)(b[j]), p) <==> is_lead(f, rcol(d, w)(b[j]), p)),
        forall|j: int| 0 <= j < b.len() ==> (is_null(rcol(d, v)(#[trigger] b[j])) <==> is_null(rcol(d, w)(b[j]))),
{
    field_ring::<C>();
    assert forall|j: int, p: K| 0 <= j < b.len() implies (#[trigger] is_lead(f, rcol(d, v)(b[j]), p) <==> is_lead(f, rcol(d, w)(b[j]), p)) by {
        if is_lead(f, rcol(d, v)(b[j]), p) { leads_agree(f, d, b, v, w, j, p); }
        if is_lead(f, rcol(d, w)(b[j]), p) { leads_agree(f, d, b, w, v, j, p); }
    }
    assert forall|j: int| 0 <= j < b.len() implies (is_null(rcol(d, v)(#[trigger] b[j])) <==> is_null(rcol(d, w)(b[j]))) by {
        let (s, t) = (rcol(d, v)(b[j]), rcol(d, w)(b[j]));
        lead_exists(f, s); lead_exists(f, t);
        if !is_null(s) { let p = choose|p: K| #[trigger] is_lead(f, s, p); assert(is_lead(f, t, p)); lead_not_null(f, t, p); }
        if !is_null(t) { let p = choose|p: K| #[trigger] is_lead(f, t, p); assert(is_lead(f, s, p)); lead_not_null(f, s, p); }
    }
}
