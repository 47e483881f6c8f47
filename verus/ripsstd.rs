//! Ghost theory: the standard algorithm over the flattened Rips bases gives the diagram of the clearing algorithm;
//! and a client of the whole stack, whose contract is the property "Rips homology and cohomology agree".
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::simplices::*;
use crate::reduce::*;
use crate::reduction::*;
use crate::standard::*;
use crate::clearing::*;
use crate::rips::*;
use crate::homology::*;
use crate::cohomology::*;
use crate::agree::*;
use crate::ripscx::*;
use crate::persist::*;
verus! {

// ---------------------------------------------------------------- positions in a concatenation
pub open spec fn off<B>(parts: Seq<Seq<B>>, t: int) -> int { flat(parts.take(t)).len() as int }
pub proof fn off_next<B>(parts: Seq<Seq<B>>, t: int)
    requires 0 <= t < parts.len(),
    ensures off(parts, t + 1) == off(parts, t) + parts[t].len(),
{
    assert(parts.take(t + 1).drop_last() =~= parts.take(t));
    assert(parts.take(t + 1).last() == parts[t]);
}
pub proof fn off_mono<B>(parts: Seq<Seq<B>>, s: int, t: int)
    requires 0 <= s < t <= parts.len(),
    ensures off(parts, s) + parts[s].len() <= off(parts, t),
    decreases t - s,
{
    off_next(parts, t - 1);
    if s < t - 1 { off_mono(parts, s, t - 1); }
}
pub proof fn flat_pos<B>(parts: Seq<Seq<B>>, k: int) -> (r: (int, int))
    requires 0 <= k < flat(parts).len(),
    ensures 0 <= r.0 < parts.len(), 0 <= r.1 < parts[r.0].len(), flat(parts)[k] == parts[r.0][r.1], k == off(parts, r.0) + r.1,
    decreases parts.len(),
{
    let q = parts.drop_last();
    let n = flat(q).len() as int;
    assert(parts.take(parts.len() - 1) =~= q);
    if k < n {
        let r = flat_pos(q, k);
        assert(q.take(r.0) =~= parts.take(r.0));
        r
    } else { (parts.len() - 1, k - n) }
}
pub proof fn flat_in<B>(parts: Seq<Seq<B>>, t: int, i: int)
    requires 0 <= t < parts.len(), 0 <= i < parts[t].len(),
    ensures flat(parts).contains(parts[t][i]),
    decreases parts.len(),
{
    let q = parts.drop_last();
    if t < q.len() {
        flat_in(q, t, i);
        let k = flat(q).index_of(parts[t][i]);
        assert(flat(parts)[k] == parts[t][i]);
    } else { assert(flat(parts)[flat(q).len() + i] == parts[t][i]); }
}
pub proof fn flat_order<B>(parts: Seq<Seq<B>>, j: int, k: int, p: (int, int), q: (int, int))
    requires 0 <= j < k < flat(parts).len(), 0 <= p.0 < parts.len(), 0 <= q.0 < parts.len(), 0 <= p.1 < parts[p.0].len(), 0 <= q.1 < parts[q.0].len(), j == off(parts, p.0) + p.1, k == off(parts, q.0) + q.1,
    ensures p.0 < q.0 || p.0 == q.0 && p.1 < q.1,
{
    if q.0 < p.0 { off_mono(parts, q.0, p.0); }
}
// ---------------------------------------------------------------- the flattened bases
pub open spec fn sdim(ds: Dists) -> spec_fn(RipsIndex) -> int { |x: RipsIndex| verts(x.0, ds.len() as usize).len() - 1 }
pub open spec fn codim(ds: Dists) -> spec_fn(Reverse<RipsIndex>) -> int { |x: Reverse<RipsIndex>| -(verts(x.0.0, ds.len() as usize).len() - 1) }
pub open spec fn all_of(bs: Seq<SingleDimRipsBasisWithFilt>) -> Seq<RipsIndex> { flat(bases_of(bs)) }
pub proof fn all_has(bs: Seq<SingleDimRipsBasisWithFilt>, d: int, ds: Dists, max_dim: usize)
    requires rips_ok(ds, max_dim), 0 <= d <= max_dim, rips_bases(bs, d, ds),
    ensures
        forall|x: RipsIndex| #[trigger] all_of(bs).contains(x) <==> exists|t: int| 0 <= t <= d && #[trigger] simp(x, t, ds),
        forall|x: RipsIndex| #[trigger] all_of(bs).contains(x) ==> 0 <= sdim(ds)(x) <= d && simp(x, sdim(ds)(x), ds),
        forall|i: int, j: int| 0 <= i < j < all_of(bs).len() ==> #[trigger] all_of(bs)[i] != #[trigger] all_of(bs)[j],
        forall|i: int, j: int| 0 <= i < j < all_of(bs).len() ==> sdim(ds)(#[trigger] all_of(bs)[i]) <= sdim(ds)(#[trigger] all_of(bs)[j]),
        forall|i: int, j: int| 0 <= i < j < all_of(bs).len() && sdim(ds)(#[trigger] all_of(bs)[i]) == sdim(ds)(#[trigger] all_of(bs)[j]) ==> rlt(fdiam(ds), all_of(bs)[i], all_of(bs)[j]),
{
    let hs = bases_of(bs);
    let b = all_of(bs);
    level_has(bs, d, ds, max_dim);
    assert forall|x: RipsIndex| #[trigger] b.contains(x) implies 0 <= sdim(ds)(x) <= d && simp(x, sdim(ds)(x), ds) by {
        let (t, i) = flat_pos(hs, b.index_of(x));
        assert(hs[t].contains(hs[t][i]));
    }
    assert forall|x: RipsIndex| #[trigger] b.contains(x) <==> exists|t: int| 0 <= t <= d && #[trigger] simp(x, t, ds) by {
        if exists|t: int| 0 <= t <= d && #[trigger] simp(x, t, ds) {
            let t = choose|t: int| 0 <= t <= d && #[trigger] simp(x, t, ds);
            assert(hs[t].contains(x));
            flat_in(hs, t, hs[t].index_of(x));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies {
        &&& #[trigger] b[i] != #[trigger] b[j]
        &&& sdim(ds)(b[i]) <= sdim(ds)(b[j])
        &&& sdim(ds)(b[i]) == sdim(ds)(b[j]) ==> rlt(fdiam(ds), b[i], b[j])
    } by {
        let p = flat_pos(hs, i);
        let q = flat_pos(hs, j);
        flat_order(hs, i, j, p, q);
        assert(hs[p.0].contains(hs[p.0][p.1]) && hs[q.0].contains(hs[q.0][q.1]));
        assert(simp(b[i], p.0, ds) && simp(b[j], q.0, ds));
        if p.0 == q.0 { assert(rlt(fdiam(ds), hs[p.0][p.1], hs[p.0][q.1])); rlt_total(fdiam(ds), b[i], b[j]); }
    }
}
/// the boundary over the flattened basis
pub proof fn rips_flat_complex<CF: NonZeroCoefficient + Invertible>(m: RipsBoundary<CF>, hb: Seq<SingleDimRipsBasisWithFilt>, h: usize)
    requires m.m_wf(), rips_ok(m.distances@, h), rips_bases(hb, h as int, m.distances@),
    ensures
        complex(fdiam(m.distances@), dmap(&m), all_of(hb), sdim(m.distances@), -1), closed(dmap(&m), all_of(hb)),
        forall|i: int| 0 <= i < all_of(hb).len() ==> m.m_dom(#[trigger] all_of(hb)[i]),
{
    let ds = m.distances@;
    let (d, b) = (dmap(&m), all_of(hb));
    all_has(hb, h as int, ds, h);
    rips_homology_complex(m, hb, h);
    let hs = bases_of(hb);
    assert forall|k: int| 0 <= k < b.len() implies is_null(mulcol(d, d(#[trigger] b[k]))) && m.m_dom(b[k]) by {
        assert(b.contains(b[k]));
        let (t, i) = flat_pos(hs, k);
        assert(hs.reverse()[hs.len() - 1 - t][i] == b[k]);
        assert(in_subs(hs.reverse(), b[k]));
    }
    assert forall|k: int, x: RipsIndex| 0 <= k < b.len() && (#[trigger] coef(d(#[trigger] b[k]), x)) is Some implies b.contains(x) && sdim(ds)(x) == sdim(ds)(b[k]) + -1 by {
        assert(b.contains(b[k]));
        facets(m, b[k], sdim(ds)(b[k]), x);
    }
}
/// the reversed coboundary over the reversed flattened basis; rows above the top dimension are outside
pub proof fn rips_flat_cocomplex<CF: NonZeroCoefficient + Invertible>(m: RipsCoboundary<CF>, cb: Seq<SingleDimRipsBasisWithFilt>, k: usize)
    requires m.m_wf(), k + 2 < usize::MAX, rips_ok(m.distances@, (k + 2) as usize), rips_bases(cb, k as int, m.distances@),
    ensures
        complex(rfilt(fdiam(m.distances@)), rmap(dmap(&m)), rev_seq(all_of(cb)), codim(m.distances@), -1),
        forall|i: int| 0 <= i < rev_seq(all_of(cb)).len() ==> m.m_dom((#[trigger] rev_seq(all_of(cb))[i]).0),
{
    let ds = m.distances@;
    let h = (k + 2) as usize;
    let (f, d, a) = (fdiam(ds), dmap(&m), all_of(cb));
    let b = rev_seq(a);
    let rd = rmap(d);
    all_has(cb, k as int, ds, h);
    rips_cohomology_complex(m, cb, k);
    let cs = bases_of(cb);
    let bs = rev_levels(cs);
    assert forall|i: int| 0 <= i < b.len() implies is_null(mulcol(rd, rd(#[trigger] b[i]))) && m.m_dom(b[i].0) && a.contains(b[i].0) by {
        let j = a.len() - 1 - i;
        assert(b[i] == Reverse(a[j]));
        assert(a.contains(a[j]));
        let (t, p) = flat_pos(cs, j);
        assert(bs[t][cs[t].len() - 1 - p] == b[i]);
        assert(in_subs(bs, b[i]));
    }
    assert forall|i: int, x: Reverse<RipsIndex>| 0 <= i < b.len() && (#[trigger] coef(rd(#[trigger] b[i]), x)) is Some implies codim(ds)(x) == codim(ds)(b[i]) + -1 && simp(x.0, sdim(ds)(b[i].0) + 1, ds) by {
        let y = b[i].0;
        assert(a.contains(y));
        coef_rev(d(y), x.0);
        assert(Reverse(x.0) == x);
        cofacet_rows(m, y, sdim(ds)(y), h, x.0);
    }
    assert forall|i: int, x: Reverse<RipsIndex>, y: Reverse<RipsIndex>| 0 <= i < b.len() && (#[trigger] coef(rd(#[trigger] b[i]), x)) is Some && #[trigger] b.contains(y) && codim(ds)(y) == codim(ds)(b[i]) + -1 implies b.contains(x) by {
        rev_has(a, y.0);
        assert(Reverse(y.0) == y && Reverse(x.0) == x);
        assert(a.contains(y.0));
        assert(simp(x.0, sdim(ds)(b[i].0) + 1, ds));
        assert(a.contains(x.0));
        rev_has(a, x.0);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies {
        &&& #[trigger] b[i] != #[trigger] b[j]
        &&& codim(ds)(b[i]) <= codim(ds)(b[j])
        &&& codim(ds)(b[i]) == codim(ds)(b[j]) ==> rlt(rfilt(f), b[i], b[j])
    } by {
        let (p, q) = (a.len() - 1 - j, a.len() - 1 - i);
        assert(b[i] == Reverse(a[q]) && b[j] == Reverse(a[p]));
        assert(a[p] != a[q]);
        assert(sdim(ds)(a[p]) <= sdim(ds)(a[q]));
        if sdim(ds)(a[p]) == sdim(ds)(a[q]) { assert(rlt(f, a[p], a[q])); rlt_flip(f, a[q], a[p]); }
    }
}

// ---------------------------------------------------------------- the standard algorithm
/// the standard algorithm on the boundary matrix that is built gives the diagram of the clearing algorithm
pub proof fn theorem_rips_standard_homology<CF: NonZeroCoefficient + Invertible>(r: &RipsBoundaryAllDims<CF>, h: usize, os: Seq<usize>,
    v: Map<RipsIndex, Vec<(CF, RipsIndex)>>, ess: Set<RipsIndex>, par: Set<(RipsIndex, RipsIndex)>,
    cols: Map<RipsIndex, ReductionColumn<CF, RipsIndex>>, ess2: Set<RipsIndex>, par2: Set<(RipsIndex, RipsIndex)>)
    requires
        is_field::<CF>(), rips_ok(r.matrix.distances@, h), rips_bases(r.basis.0@, h as int, r.matrix.distances@), down(os, h as int),
        rdv_ok(fmap(&r), dmap(&r), r.m_basis().b_seq(), v), diagram_of(fmap(&r), rcol(dmap(&r), vmap(v)), r.m_basis().b_seq(), false, ess, par),
        clear_ok(fmap(&r), dmap(&r), subs(&r, os), cols, ess2, par2),
    ensures
        forall|p: RipsIndex, x: RipsIndex| #[trigger] par.contains((p, x)) <==> par2.contains((p, x)),
        forall|x: RipsIndex| #[trigger] ess.contains(x) <==> ess2.contains(x),
{
    field_ring::<CF>();
    let ds = r.matrix.distances@;
    let (hb, m) = (r.basis.0@, r.matrix);
    let (f, d, b) = (fdiam(ds), dmap(&m), all_of(hb));
    theorem_rips_homology_ready(r, h, os);
    rips_flat_complex(m, hb, h);
    all_has(hb, h as int, ds, h);
    level_has(hb, h as int, ds, h);
    rips_homology_complex(m, hb, h);
    let hs = bases_of(hb);
    let bs = hs.reverse();
    let degs = Seq::new(bs.len(), |t: int| h - t);
    assert(r.m_basis().b_seq() == b);
    assert forall|t: int, x: RipsIndex| 0 <= t < bs.len() implies (#[trigger] bs[t].contains(x) <==> b.contains(x) && sdim(ds)(x) == degs[t]) by { assert(bs[t] == hs[h - t]); assert(hs[h - t].contains(x) <==> simp(x, h - t, ds)); }
    theorem_clearing(f, d, b, sdim(ds), -1, v, false, ess, par, bs, degs, cols, ess2, par2);
    assert forall|x: RipsIndex| #[trigger] in_subs(bs, x) <==> b.contains(x) by {
        if b.contains(x) {
            let (t, i) = flat_pos(hs, b.index_of(x));
            assert(bs[h - t][i] == x);
        }
        if in_subs(bs, x) {
            let (t, i) = choose|t: int, i: int| 0 <= t < bs.len() && 0 <= i < bs[t].len() && #[trigger] bs[t][i] == x;
            assert(bs[t].contains(x));
        }
    }
    assert forall|y: RipsIndex, x: RipsIndex| b.contains(y) && in_subs(bs, x) && (#[trigger] coef(d(y), x)) is Some implies in_subs(bs, y) by {}
    assert forall|x: RipsIndex| #[trigger] ess.contains(x) implies b.contains(x) by { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x; }
    assert forall|p: RipsIndex, x: RipsIndex| #[trigger] par.contains((p, x)) implies b.contains(x) by {}
}
/// the same for the reversed coboundary matrix, whose columns of the top dimension have rows outside the basis
pub proof fn theorem_rips_standard_cohomology<CF: NonZeroCoefficient + Invertible>(c: &ReverseMatrix<RipsCoboundaryAllDims<CF>>, k: usize, os: Seq<usize>,
    v: Map<Reverse<RipsIndex>, Vec<(CF, Reverse<RipsIndex>)>>, ess: Set<Reverse<RipsIndex>>, par: Set<(Reverse<RipsIndex>, Reverse<RipsIndex>)>,
    cols: Map<Reverse<RipsIndex>, ReductionColumn<CF, Reverse<RipsIndex>>>, ess2: Set<Reverse<RipsIndex>>, par2: Set<(Reverse<RipsIndex>, Reverse<RipsIndex>)>)
    requires
        is_field::<CF>(), k + 2 < usize::MAX, rips_ok(c.oracle.matrix.distances@, (k + 2) as usize), rips_bases(c.oracle.basis.0@, k as int, c.oracle.matrix.distances@), up(os, k as int),
        rdv_ok(fmap(&c), dmap(&c), c.m_basis().b_seq(), v), diagram_of(fmap(&c), rcol(dmap(&c), vmap(v)), c.m_basis().b_seq(), false, ess, par),
        clear_ok(fmap(&c), dmap(&c), subs(&c, os), cols, ess2, par2),
    ensures
        forall|p: Reverse<RipsIndex>, x: Reverse<RipsIndex>| #[trigger] par.contains((p, x)) <==> par2.contains((p, x)),
        forall|x: Reverse<RipsIndex>| #[trigger] ess.contains(x) <==> ess2.contains(x),
{
    field_ring::<CF>();
    let ds = c.oracle.matrix.distances@;
    let (cb, m) = (c.oracle.basis.0@, c.oracle.matrix);
    let h = (k + 2) as usize;
    let a = all_of(cb);
    let (f, d, b) = (rfilt(fdiam(ds)), rmap(dmap(&m)), rev_seq(a));
    theorem_rips_cohomology_ready(c, k, os);
    rips_flat_cocomplex(m, cb, k);
    all_has(cb, k as int, ds, h);
    level_has(cb, k as int, ds, h);
    rips_cohomology_complex(m, cb, k);
    let cs = bases_of(cb);
    let bs = rev_levels(cs);
    let degs = Seq::new(bs.len(), |t: int| -t);
    assert(c.m_basis().b_seq() == b);
    assert forall|x: Reverse<RipsIndex>| #[trigger] b.contains(x) <==> a.contains(x.0) by { rev_has(a, x.0); assert(Reverse(x.0) == x); }
    assert forall|t: int, x: Reverse<RipsIndex>| 0 <= t < bs.len() implies (#[trigger] bs[t].contains(x) <==> b.contains(x) && codim(ds)(x) == degs[t]) by {
        rev_has(cs[t], x.0);
        assert(Reverse(x.0) == x);
        assert(cs[t].contains(x.0) <==> simp(x.0, t, ds));
    }
    theorem_clearing(f, d, b, codim(ds), -1, v, false, ess, par, bs, degs, cols, ess2, par2);
    assert forall|x: Reverse<RipsIndex>| #[trigger] in_subs(bs, x) <==> b.contains(x) by {
        if b.contains(x) {
            let (t, i) = flat_pos(cs, a.index_of(x.0));
            assert(bs[t][cs[t].len() - 1 - i] == x);
        }
        if in_subs(bs, x) {
            let (t, i) = choose|t: int, i: int| 0 <= t < bs.len() && 0 <= i < bs[t].len() && #[trigger] bs[t][i] == x;
            assert(bs[t].contains(x));
        }
    }
    assert forall|y: Reverse<RipsIndex>, x: Reverse<RipsIndex>| b.contains(y) && in_subs(bs, x) && (#[trigger] coef(d(y), x)) is Some implies in_subs(bs, y) by {}
    assert forall|x: Reverse<RipsIndex>| #[trigger] ess.contains(x) implies b.contains(x) by { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x; }
    assert forall|p: Reverse<RipsIndex>, x: Reverse<RipsIndex>| #[trigger] par.contains((p, x)) implies b.contains(x) by {}
}

// ---------------------------------------------------------------- persistent Betti numbers
/// the simplices of dimension `t` of the complex up to dimension `h`
pub open spec fn dim_at(ds: Dists, t: int, h: int) -> spec_fn(RipsIndex) -> bool { |x: RipsIndex| t <= h && simp(x, t, ds) }
/// the simplicial boundary
pub open spec fn rips_bd<CF: NonZeroCoefficient>(ds: Dists) -> spec_fn(RipsIndex) -> Seq<(CF, RipsIndex)> { |x: RipsIndex| bd_terms(verts(x.0, ds.len() as usize), ds.len() as int + 1) }
/// the bars of dimension `t` count the persistent Betti numbers of the complex up to dimension `h`
pub open spec fn rips_betti<CF: NonZeroCoefficient>(ds: Dists, h: int, ess: Set<RipsIndex>, par: Set<(RipsIndex, RipsIndex)>, t: int, p: NotNan<f64>, q: NotNan<f64>) -> bool {
    persistent_betti(fdiam(ds), rips_bd::<CF>(ds), dim_at(ds, t, h), dim_at(ds, t + 1, h), bars_at(fdiam(ds), dim_at(ds, t, h), ess, par, p, q), p, q)
}
pub proof fn theorem_rips_betti<CF: NonZeroCoefficient + Invertible>(r: &RipsBoundaryAllDims<CF>, h: usize, os: Seq<usize>,
    cols: Map<RipsIndex, ReductionColumn<CF, RipsIndex>>, ess: Set<RipsIndex>, par: Set<(RipsIndex, RipsIndex)>, t: int, p: NotNan<f64>, q: NotNan<f64>)
    requires
        is_field::<CF>(), rips_ok(r.matrix.distances@, h), rips_bases(r.basis.0@, h as int, r.matrix.distances@), down(os, h as int),
        clear_ok(fmap(&r), dmap(&r), subs(&r, os), cols, ess, par), 0 <= t <= h,
    ensures rips_betti::<CF>(r.matrix.distances@, h as int, ess, par, t, p, q),
{
    field_ring::<CF>();
    let ds = r.matrix.distances@;
    let (hb, m) = (r.basis.0@, r.matrix);
    theorem_rips_homology_ready(r, h, os);
    level_has(hb, h as int, ds, h);
    rips_homology_complex(m, hb, h);
    let hs = bases_of(hb);
    let bs = hs.reverse();
    let s = h - t;
    assert(bs[s] == hs[t]);
    assert(in_list(bs[s]) =~= dim_at(ds, t, h as int)) by { assert forall|x: RipsIndex| in_list(bs[s])(x) == #[trigger] dim_at(ds, t, h as int)(x) by { assert(hs[t].contains(x) <==> simp(x, t, ds)); } }
    assert(in_list(above(bs, s)) =~= dim_at(ds, t + 1, h as int)) by {
        assert forall|x: RipsIndex| in_list(above(bs, s))(x) == #[trigger] dim_at(ds, t + 1, h as int)(x) by {
            if s > 0 { assert(bs[s - 1] == hs[t + 1]); assert(hs[t + 1].contains(x) <==> simp(x, t + 1, ds)); }
        }
    }
    assert(dmap(&m) =~= rips_bd::<CF>(ds));
    theorem_clearing_betti(fdiam(ds), dmap(&m), bs, cols, ess, par, s, p, q);
}

// ---------------------------------------------------------------- a client of the whole stack
/// Builds both matrices and reduces each with both algorithms. Not code of /repo: it only calls /repo's functions,
/// and shows that their contracts compose, from the distance matrix to the barcodes.
pub fn client_rips_barcodes<CF: NonZeroCoefficient + Invertible + 'static>(d1: Vec<Vec<NotNan<f64>>>, d2: Vec<Vec<NotNan<f64>>>, h: usize, k: usize, os: It<usize>, cos: It<usize>)
    -> (r: (Diagram<RipsIndex>, Diagram<RipsIndex>, Diagram<Reverse<RipsIndex>>, Diagram<Reverse<RipsIndex>>))
    requires
        is_field::<CF>(), d1 == d2, rips_ok(d1@, h), k + 2 < usize::MAX, rips_ok(d1@, (k + 2) as usize), down(os.items(), h as int), up(cos.items(), k as int),
    ensures
        // both algorithms agree on each side
        forall|p: RipsIndex, x: RipsIndex| #[trigger] r.0.pairings@.contains((p, x)) <==> r.1.pairings@.contains((p, x)),
        forall|x: RipsIndex| #[trigger] r.0.essential@.contains(x) <==> r.1.essential@.contains(x),
        forall|p: Reverse<RipsIndex>, x: Reverse<RipsIndex>| #[trigger] r.2.pairings@.contains((p, x)) <==> r.3.pairings@.contains((p, x)),
        forall|x: Reverse<RipsIndex>| #[trigger] r.2.essential@.contains(x) <==> r.3.essential@.contains(x),
        // homology and cohomology agree
        forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, d1@) ==> (#[trigger] r.0.pairings@.contains((x, y)) <==> r.2.pairings@.contains((Reverse(y), Reverse(x)))),
        forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, d1@) && #[trigger] r.0.pairings@.contains((x, y)) ==> simp(y, t + 1, d1@) && leq(fdiam(d1@)(x), fdiam(d1@)(y)),
        forall|t: int, x: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, d1@) ==> (r.0.essential@.contains(x) <==> r.2.essential@.contains(Reverse(x))),
        // and the bars count persistent Betti numbers
        forall|t: int, p: NotNan<f64>, q: NotNan<f64>| 0 <= t <= h ==> #[trigger] rips_betti::<CF>(d1@, h as int, r.0.essential@, r.0.pairings@, t, p, q),
{
    let ghost ds = d1@;
    let b = build_rips_boundary_matrix::<CF>(d1, h);
    let c0 = build_rips_coboundary_matrix::<CF>(d2, k);
    let c = c0.reverse();
    proof {
        theorem_rips_homology_ready(&b, h, os.items());
        theorem_rips_cohomology_ready(&c, k, cos.items());
        rips_flat_complex(b.matrix, b.basis.0@, h);
        rips_flat_cocomplex(c.oracle.matrix, c.oracle.basis.0@, k);
        all_has(b.basis.0@, h as int, ds, h);
        assert((&b).m_basis().b_seq() == all_of(b.basis.0@));
        assert((&c).m_basis().b_seq() == rev_seq(all_of(c.oracle.basis.0@)));
    }
    let (v1, g1) = ClearedReductionMatrix::build_with_diagram(&b, os);
    let (v2, g2) = standard_algo_with_diagram(&b, false);
    let (v3, g3) = ClearedReductionMatrix::build_with_diagram(&c, cos);
    let (v4, g4) = standard_algo_with_diagram(&c, false);
    proof {
        theorem_rips_standard_homology(&b, h, os.items(), v2.columns.cv()@, g2.essential@, g2.pairings@, v1.reduction_columns.cv()@, g1.essential@, g1.pairings@);
        theorem_rips_standard_cohomology(&c, k, cos.items(), v4.columns.cv()@, g4.essential@, g4.pairings@, v3.reduction_columns.cv()@, g3.essential@, g3.pairings@);
        theorem_rips_barcode(&b, h, os.items(), &c, k, cos.items(), v1.reduction_columns.cv()@, g1.essential@, g1.pairings@, v3.reduction_columns.cv()@, g3.essential@, g3.pairings@);
        assert forall|t: int, p: NotNan<f64>, q: NotNan<f64>| 0 <= t <= h implies #[trigger] rips_betti::<CF>(ds, h as int, g1.essential@, g1.pairings@, t, p, q) by {
            theorem_rips_betti(&b, h, os.items(), v1.reduction_columns.cv()@, g1.essential@, g1.pairings@, t, p, q);
        }
    }
    (g1, g2, g3, g4)
}
} // verus!
