@@file phlite_rips/src/homology.rs homology
@@use
use crate::prelude::*;
use crate::ints::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::simplices::*;
use crate::rips::*;
use crate::reduce::*;
use core::cmp::Ordering;
use std::marker::PhantomData;
use vstd::std_specs::cmp::*;
use vstd::arithmetic::power::*;
@@fn RipsBoundary::n_points
@ret r
@spec
    ensures r == self.distances@.len(),
@@inside <RipsBoundary as MatrixOracle>
    open spec fn m_wf(&self) -> bool { is_ring::<CF>() && self.distances@.len() < usize::MAX }
    open spec fn m_dom(&self, col: RipsIndex) -> bool { is_code(col.0, self.distances@.len() as usize) }
    open spec fn m_col(&self, col: RipsIndex) -> Seq<(CF, RipsIndex)> { bd_terms(verts(col.0, self.distances@.len() as usize), self.distances@.len() as int + 1) }
    open spec fn m_row(&self, row: RipsIndex) -> bool { is_code(row.0, self.distances@.len() as usize) && row.0 != 0 }
    proof fn m_ring(&self) {}
@@fn <RipsBoundary as MatrixOracle>::column
@start
    let ghost n = self.distances@.len() as int;
    let ghost vs = verts(col.0, n as usize);
    proof {
        assert(all_below(vs, n) && code(vs, n + 1) == col.0);
        somes_all::<(CF, RipsIndex)>();
        assert forall|i: int| 0 <= i < vs.len() implies 0 <= #[trigger] code(vs.remove(i), n + 1) <= usize::MAX && all_below(vs.remove(i), n) && verts(code(vs.remove(i), n + 1) as usize, n as usize) == vs.remove(i) && is_code(code(vs.remove(i), n + 1) as usize, n as usize) by {
            code_remove_le(vs, n, i); verts_code(vs.remove(i), n as usize);
        }
        assert forall|i: int| 0 <= i < vs.len() && vs.len() > 1 implies #[trigger] code(vs.remove(i), n + 1) > 0 by { code_pos(vs.remove(i), n + 1); }
    }
@closure 0 r: CF
    requires is_ring::<CF>()
    ensures r == alt_sgn::<CF>(i as int)
@closurestart 0
    proof { ring_exec::<CF>(); }
@closureparam 1 i: usize
@closure 1 r: Option<(CF, RipsIndex)>
    requires i < index_as_vec@.len(), n == n_points < usize::MAX, index_as_vec@ == vs, is_ring::<CF>(), all_below(vs, n), 0 <= code(vs.remove(i as int), n + 1) <= usize::MAX, all_below(vs.remove(i as int), n),
    ensures r == (if vs.len() <= 1 { None } else { Some(bd_term::<CF>(vs, n + 1, i as int)) })
@closurestart 1
    proof {
        let e = Seq::new(vs.len(), |k: int| (k as usize, &vs[k]));
        code_seq_eq(vs.remove(i as int), n + 1);
        but_lemma(vs, i as int);
    }
@closureparam 2 vpa2_0: &(usize, &usize)
@closure 2 r: bool
    ensures r == (vpa2_0.0 != i)
@closureparam 3 vpa3_0: (usize, &usize)
@closure 3 r: &usize
    ensures r == vpa3_0.1
@end
    proof { assert(vp_ret@ =~= self.m_col(col)); }
@@inside <RipsBoundary as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { dist_ok(self.distances@) }
    /// the diameter
    open spec fn f_val(&self, row: RipsIndex) -> NotNan<f64> { diam(verts(row.0, self.distances@.len() as usize), self.distances@) }
@@fn <RipsBoundary as HasRowFiltration>::filtration_value
@start
    let ghost n = self.distances@.len() as int;
    let ghost vs = verts(row.0, n as usize);
    proof {
        assert(all_below(vs, n) && code(vs, n + 1) == row.0);
        diam_is_max(vs, self.distances@);
        assert forall|m: NotNan<f64>| #[trigger] is_maxpair(m, vs, self.distances@) implies m == diam(vs, self.distances@) by { maxpair_unique(m, diam(vs, self.distances@), vs, self.distances@); }
    }
@@fn build_rips_boundary_matrix
@ret r
@spec
    requires rips_ok(distances@, max_dim),
    ensures
        r.matrix.distances == distances, r.basis.0@.len() == max_dim + 1,
        forall|d: int| 0 <= d <= max_dim ==> basis_ok(#[trigger] r.basis.0@[d], d, distances@),

@@append
pub open spec fn alt_sgn<C: NonZeroCoefficient>(i: int) -> C { if i % 2 == 0 { C::one_spec() } else { C::one_spec().neg_spec() } }
pub open spec fn bd_term<C: NonZeroCoefficient>(vs: Seq<usize>, b: int, i: int) -> (C, RipsIndex) { (alt_sgn::<C>(i), RipsIndex(code(vs.remove(i), b) as usize)) }
/// the boundary of a simplex: facets in vertex order with alternating signs
pub open spec fn bd_terms<C: NonZeroCoefficient>(vs: Seq<usize>, b: int) -> Seq<(C, RipsIndex)> { if vs.len() <= 1 { Seq::empty() } else { Seq::new(vs.len(), |i: int| bd_term::<C>(vs, b, i)) } }
pub proof fn but_lemma(vs: Seq<usize>, i: int)
    requires 0 <= i < vs.len(),
    ensures
        forall|s: Seq<(usize, &usize)>, keep: Seq<bool>| #![trigger select(s, keep)]
            s.len() == vs.len() && keep.len() == vs.len() && (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 == k && *s[k].1 == vs[k]) && (forall|k: int| 0 <= k < s.len() ==> #[trigger] keep[k] == (s[k].0 != i as usize))
            ==> select(s, keep).len() == vs.len() - 1 && forall|k: int| 0 <= k < vs.len() - 1 ==> *(#[trigger] select(s, keep)[k]).1 == vs.remove(i)[k],
{
    assert forall|s: Seq<(usize, &usize)>, keep: Seq<bool>| #![trigger select(s, keep)]
        s.len() == vs.len() && keep.len() == vs.len() && (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 == k && *s[k].1 == vs[k]) && (forall|k: int| 0 <= k < s.len() ==> #[trigger] keep[k] == (s[k].0 != i as usize))
        implies select(s, keep).len() == vs.len() - 1 && forall|k: int| 0 <= k < vs.len() - 1 ==> *(#[trigger] select(s, keep)[k]).1 == vs.remove(i)[k] by {
        select_but(s, i);
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] keep[k] == (k != i) by { assert(s[k].0 == k); assert(s[i].0 == i); }
        assert(select(s, keep) == s.remove(i));
        assert forall|k: int| 0 <= k < vs.len() - 1 implies *(#[trigger] select(s, keep)[k]).1 == vs.remove(i)[k] by { if k < i { assert(s.remove(i)[k] == s[k]); } else { assert(s.remove(i)[k] == s[k + 1]); } }
    }
}

/// distinct vertices give distinct facets
pub proof fn remove_differs(vs: Seq<usize>, n: int, i: int, j: int)
    requires simplex_on(vs, n), 0 <= i < vs.len(), 0 <= j < vs.len(), vs.remove(i) == vs.remove(j),
    ensures i == j,
{
    if i < j { assert(vs.remove(i)[i] == vs[i + 1]); assert(vs.remove(j)[i] == vs[i]); }
    if j < i { assert(vs.remove(j)[j] == vs[j + 1]); assert(vs.remove(i)[j] == vs[j]); }
}
pub proof fn remove_simplex(vs: Seq<usize>, n: int, i: int)
    requires simplex_on(vs, n), 0 <= i < vs.len(), n >= 0,
    ensures simplex_on(vs.remove(i), n),
{
    code_remove_le(vs, n, i);
    let w = vs.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies w[a] < w[b] by {
        let p = if a < i { a } else { a + 1 }; let q = if b < i { b } else { b + 1 };
        assert(w[a] == vs[p] && w[b] == vs[q]);
    }
}
/// the facet code `c` of `vs` and what is known about it
pub proof fn facet_code(vs: Seq<usize>, n: usize, i: int)
    requires simplex_on(vs, n as int), 0 <= i < vs.len(), n < usize::MAX, code(vs, n + 1) <= usize::MAX,
    ensures
        simplex_on(vs.remove(i), n as int), 0 <= code(vs.remove(i), n + 1) <= usize::MAX,
        verts(code(vs.remove(i), n + 1) as usize, n) == vs.remove(i), is_code(code(vs.remove(i), n + 1) as usize, n),
{ remove_simplex(vs, n as int, i); code_remove_le(vs, n as int, i); verts_code(vs.remove(i), n); }
/// the coefficient of a simplex in a boundary
pub proof fn bd_coef<C: NonZeroCoefficient>(vs: Seq<usize>, ws: Seq<usize>, n: usize)
    requires is_ring::<C>(), simplex_on(vs, n as int), all_below(ws, n as int), n < usize::MAX, code(vs, n + 1) <= usize::MAX, code(ws, n + 1) <= usize::MAX,
    ensures
        forall|i: int| 0 <= i < vs.len() && vs.len() > 1 && ws == #[trigger] vs.remove(i) ==> coef(bd_terms::<C>(vs, n + 1), RipsIndex(code(ws, n + 1) as usize)) == Some(alt_sgn::<C>(i)),
        vs.len() <= 1 || (forall|i: int| 0 <= i < vs.len() ==> ws != #[trigger] vs.remove(i)) ==> coef(bd_terms::<C>(vs, n + 1), RipsIndex(code(ws, n + 1) as usize)) is None,
{
    let s = bd_terms::<C>(vs, n + 1);
    let r = RipsIndex(code(ws, n + 1) as usize);
    code_nonneg(ws, n + 1);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).1 != (#[trigger] s[j]).1 by {
        facet_code(vs, n, i); facet_code(vs, n, j);
        if s[i].1 == s[j].1 { code_inj(vs.remove(i), vs.remove(j), n as int); remove_differs(vs, n as int, i, j); }
    }
    assert forall|i: int| 0 <= i < vs.len() && vs.len() > 1 && ws == #[trigger] vs.remove(i) implies coef(s, r) == Some(alt_sgn::<C>(i)) by {
        assert(s[i] == (alt_sgn::<C>(i), r));
        coef_distinct(s, i);
    }
    if vs.len() <= 1 || (forall|i: int| 0 <= i < vs.len() ==> ws != #[trigger] vs.remove(i)) {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 != r by {
            facet_code(vs, n, i);
            if s[i].1 == r { code_inj(vs.remove(i), ws, n as int); }
        }
        coef_absent(s, r);
    }
}
pub proof fn alt_sgn_cases<C: NonZeroCoefficient>(i: int)
    ensures alt_sgn::<C>(i) == C::one_spec() || alt_sgn::<C>(i) == C::one_spec().neg_spec(), alt_sgn::<C>(i) == (if i % 2 == 0 { C::one_spec() } else { C::one_spec().neg_spec() }), alt_sgn::<C>(i + 1) == (if i % 2 == 0 { C::one_spec().neg_spec() } else { C::one_spec() }),
{ assert((i + 1) % 2 == 0 <==> i % 2 != 0); }
/// a facet opposite a third vertex does not contain it
pub proof fn third_facet(vs: Seq<usize>, n: int, p: int, q: int, k: int, l: int)
    requires simplex_on(vs, n), 0 <= p < q < vs.len(), 0 <= k < vs.len(), k != p, k != q, 0 <= l < vs.len() - 1,
    ensures vs.remove(p).remove(q - 1) != vs.remove(k).remove(l),
{
    let ws = vs.remove(p).remove(q - 1);
    let w = vs.remove(k).remove(l);
    let x = if k < p { k } else if k < q { k - 1 } else { k - 2 };
    assert(ws[x] == vs[k]) by { let y = if x < q - 1 { x } else { x + 1 }; assert(ws[x] == vs.remove(p)[y]); }
    if w == ws {
        let y = if x < l { x } else { x + 1 };
        assert(w[x] == vs.remove(k)[y]);
        let z = if y < k { y } else { y + 1 };
        assert(vs.remove(k)[y] == vs[z]);
        if z < k { assert(vs[z] < vs[k]); } else { assert(vs[k] < vs[z]); }
    }
}
/// the two ways to remove vertices `p` and `q` cancel
pub proof fn boundary_pair<C: NonZeroCoefficient>(a: spec_fn(RipsIndex) -> Seq<(C, RipsIndex)>, vs: Seq<usize>, n: usize, p: int, q: int)
    requires
        is_ring::<C>(), simplex_on(vs, n as int), n < usize::MAX, code(vs, n + 1) <= usize::MAX, 0 <= p < q < vs.len(), vs.len() > 2,
        forall|i: int| 0 <= i < vs.len() ==> #[trigger] a(bd_term::<C>(vs, n + 1, i).1) == bd_terms::<C>(vs.remove(i), n + 1),
    ensures mulc(a, bd_terms::<C>(vs, n + 1), RipsIndex(code(vs.remove(p).remove(q - 1), n + 1) as usize)) is None,
{
    let s = bd_terms::<C>(vs, n + 1);
    let ws = vs.remove(p).remove(q - 1);
    let r = RipsIndex(code(ws, n + 1) as usize);
    facet_code(vs, n, p); facet_code(vs, n, q);
    facet_code(vs.remove(p), n, q - 1);
    assert(vs.remove(q).remove(p) =~= ws);
    bd_coef::<C>(vs.remove(p), ws, n);
    bd_coef::<C>(vs.remove(q), ws, n);
    assert forall|k: int| 0 <= k < s.len() && k != p && k != q implies (#[trigger] contrib(a, s, r, k)) is None by {
        facet_code(vs, n, k);
        assert forall|l: int| 0 <= l < vs.len() - 1 implies ws != #[trigger] vs.remove(k).remove(l) by { third_facet(vs, n as int, p, q, k, l); }
        bd_coef::<C>(vs.remove(k), ws, n);
        assert(s[k] == bd_term::<C>(vs, n + 1, k));
    }
    mulc_two(a, s, r, p, q);
    assert(s[p] == bd_term::<C>(vs, n + 1, p) && s[q] == bd_term::<C>(vs, n + 1, q));
    assert(contrib(a, s, r, p) == smul(Some(alt_sgn::<C>(q - 1)), Some(alt_sgn::<C>(p))));
    assert(contrib(a, s, r, q) == smul(Some(alt_sgn::<C>(p)), Some(alt_sgn::<C>(q))));
    smul_comm(Some(alt_sgn::<C>(q - 1)), Some(alt_sgn::<C>(p)));
    alt_sgn_cases::<C>(p); alt_sgn_cases::<C>(q - 1);
    signs_cancel::<C>(alt_sgn::<C>(p));
}
pub open spec fn twice_removed(vs: Seq<usize>, b: int, r: RipsIndex, i: int, j: int) -> bool { 0 <= i < vs.len() && 0 <= j < vs.len() - 1 && vs.len() > 2 && r == RipsIndex(code(vs.remove(i).remove(j), b) as usize) }
/// the boundary of a boundary is zero
pub proof fn theorem_boundary_squared<CF: NonZeroCoefficient + Invertible>(m: RipsBoundary<CF>, col: RipsIndex)
    requires m.m_wf(), m.m_dom(col), simplex_on(verts(col.0, m.distances@.len() as usize), m.distances@.len() as int),
    ensures is_null(mulcol(dmap(&m), m.m_col(col))),
{
    let n = m.distances@.len() as usize;
    let vs = verts(col.0, n);
    let s = m.m_col(col);
    let a = dmap(&m);
    assert(all_below(vs, n as int) && code(vs, n + 1) == col.0);
    assert forall|r: RipsIndex| (#[trigger] coef(mulcol(a, s), r)) is None by {
        mulcol_coef(a, s, r);
        if vs.len() > 1 {
            assert forall|i: int| 0 <= i < vs.len() implies #[trigger] a(bd_term::<CF>(vs, n + 1, i).1) == bd_terms::<CF>(vs.remove(i), n + 1) by { facet_code(vs, n, i); }
            if exists|i: int, j: int| #[trigger] twice_removed(vs, n + 1, r, i, j) {
                let (i, j) = choose|i: int, j: int| #[trigger] twice_removed(vs, n + 1, r, i, j);
                let (p, q) = if j < i { (j, i) } else { (i, j + 1) };
                assert(vs.remove(i).remove(j) =~= vs.remove(p).remove(q - 1));
                boundary_pair::<CF>(a, vs, n, p, q);
            } else {
                assert forall|k: int| 0 <= k < s.len() implies (#[trigger] contrib(a, s, r, k)) is None by {
                    let t = bd_terms::<CF>(vs.remove(k), n + 1);
                    assert(s[k] == bd_term::<CF>(vs, n + 1, k));
                    assert forall|l: int| 0 <= l < t.len() implies (#[trigger] t[l]).1 != r by { assert(t[l] == bd_term::<CF>(vs.remove(k), n + 1, l)); assert(!twice_removed(vs, n + 1, r, k, l)); }
                    coef_absent(t, r);
                }
                mulc_none(a, s, r);
            }
        }
    }
}
/// a simplex never appears before its facets
pub proof fn theorem_facets_first<CF: NonZeroCoefficient + Invertible>(m: RipsBoundary<CF>, col: RipsIndex)
    requires m.m_wf(), m.f_wf(), m.m_dom(col),
    ensures forall|i: int| 0 <= i < m.m_col(col).len() ==> leq(m.f_val((#[trigger] m.m_col(col)[i]).1), m.f_val(col)),
{
    let n = m.distances@.len() as usize;
    let vs = verts(col.0, n);
    assert(all_below(vs, n as int) && code(vs, n + 1) == col.0);
    assert forall|i: int| 0 <= i < m.m_col(col).len() implies leq(m.f_val((#[trigger] m.m_col(col)[i]).1), m.f_val(col)) by {
        let w = vs.remove(i);
        code_remove_le(vs, n as int, i); verts_code(w, n);
        assert forall|k: int| 0 <= k < w.len() implies vs.contains(#[trigger] w[k]) by { let p = if k < i { k } else { k + 1 }; assert(vs[p] == w[k]); }
        diam_mono(w, vs, m.distances@);
    }
}
