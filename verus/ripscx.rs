//! Ghost theory: the Rips boundary and the reversed Rips coboundary over the bases that are built for them are
//! filtered complexes, dual to each other; persistent homology and cohomology give the same barcode.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::simplices::*;
use crate::reduce::*;
use crate::duality::*;
use crate::reduction::*;
use crate::standard::*;
use crate::clearing::*;
use crate::rips::*;
use crate::homology::*;
use crate::cohomology::*;
use crate::agree::*;
verus! {

pub type Dists = Seq<Vec<NotNan<f64>>>;
/// `x` is the index of a simplex on `k + 1` vertices
pub open spec fn simp(x: RipsIndex, k: int, ds: Dists) -> bool {
    is_code(x.0, ds.len() as usize) && simplex_on(verts(x.0, ds.len() as usize), ds.len() as int) && verts(x.0, ds.len() as usize).len() == k + 1
}
/// the diameter of a simplex
pub open spec fn fdiam(ds: Dists) -> spec_fn(RipsIndex) -> NotNan<f64> { |x: RipsIndex| diam(verts(x.0, ds.len() as usize), ds) }
/// the bases of a Rips complex up to dimension `d`
pub open spec fn rips_bases(bs: Seq<SingleDimRipsBasisWithFilt>, d: int, ds: Dists) -> bool { bs.len() == d + 1 && forall|k: int| 0 <= k <= d ==> basis_ok(#[trigger] bs[k], k, ds) }
pub proof fn rips_ok_less(ds: Dists, a: usize, b: usize)
    requires rips_ok(ds, b), a <= b,
    ensures rips_ok(ds, a),
{}
pub proof fn simp_of(vs: Seq<usize>, ds: Dists)
    requires ds.len() < usize::MAX, simplex_on(vs, ds.len() as int), code(vs, ds.len() as int + 1) <= usize::MAX,
    ensures simp(RipsIndex(code(vs, ds.len() as int + 1) as usize), vs.len() - 1, ds), verts(code(vs, ds.len() as int + 1) as usize, ds.len() as usize) == vs,
{ verts_code(vs, ds.len() as usize); }
pub proof fn simp_verts(x: RipsIndex, k: int, ds: Dists)
    requires ds.len() < usize::MAX, simp(x, k, ds),
    ensures code(verts(x.0, ds.len() as usize), ds.len() as int + 1) == x.0, all_below(verts(x.0, ds.len() as usize), ds.len() as int),
{}
pub proof fn basis_has(b: SingleDimRipsBasisWithFilt, d: int, ds: Dists, max_dim: usize)
    requires rips_ok(ds, max_dim), 0 <= d <= max_dim, basis_ok(b, d, ds),
    ensures
        forall|x: RipsIndex| #[trigger] b.b_seq().contains(x) <==> simp(x, d, ds),
        forall|i: int, j: int| 0 <= i < j < b.b_seq().len() ==> rlt(fdiam(ds), #[trigger] b.b_seq()[i], #[trigger] b.b_seq()[j]),
{
    let n = ds.len() as int;
    let (s, q, f) = (b.b_seq(), b.0@, fdiam(ds));
    assert forall|i: int| 0 <= i < q.len() implies simp((#[trigger] q[i]).1, d, ds) && q[i].0 == f(q[i].1) && s[i] == q[i].1 by {
        assert(is_entry(q[i], d, ds));
        let vs = choose|vs: Seq<usize>| #[trigger] simplex_on(vs, n) && vs.len() == d + 1 && q[i] == entry(vs, ds);
        assert(code(vs, n + 1) <= usize::MAX);
        simp_of(vs, ds);
    }
    assert forall|x: RipsIndex| #[trigger] s.contains(x) <==> simp(x, d, ds) by {
        if s.contains(x) { let i = s.index_of(x); assert(q[i].1 == x); }
        if simp(x, d, ds) {
            simp_verts(x, d, ds);
            let vs = verts(x.0, n as usize);
            assert(q.contains(entry(vs, ds)));
            let i = q.index_of(entry(vs, ds));
            assert(s[i] == q[i].1 && q[i].1 == x);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies rlt(f, #[trigger] s[i], #[trigger] s[j]) by {
        assert(s[i] != s[j]);
        axiom_notnan_lawful::<NotNan<f64>>(); ripsindex_lawful();
        assert(q[i].0 == f(s[i]) && q[j].0 == f(s[j]) && q[i].1 == s[i] && q[j].1 == s[j]);
        assert(leq2(q[i], q[j]));
        leq2_order(q[i], q[j], q[j]);
        leq_total(q[i].0, q[j].0); leq_total(q[j].0, q[i].0); leq_total(q[i].1, q[j].1); leq_total(q[j].1, q[i].1);
        if leq(q[j].1, q[i].1) && leq(q[i].1, q[j].1) { leq_antisym(q[i].1, q[j].1); }
    }
}
pub proof fn level_has(bs: Seq<SingleDimRipsBasisWithFilt>, d: int, ds: Dists, max_dim: usize)
    requires rips_ok(ds, max_dim), d <= max_dim, rips_bases(bs, d, ds),
    ensures
        forall|t: int, x: RipsIndex| 0 <= t <= d ==> (#[trigger] bases_of(bs)[t].contains(x) <==> simp(x, t, ds)),
        forall|t: int, i: int, j: int| 0 <= t <= d && 0 <= i < j < bases_of(bs)[t].len() ==> rlt(fdiam(ds), #[trigger] bases_of(bs)[t][i], #[trigger] bases_of(bs)[t][j]),
{
    assert forall|t: int, x: RipsIndex| 0 <= t <= d implies (#[trigger] bases_of(bs)[t].contains(x) <==> simp(x, t, ds)) by { assert(bases_of(bs)[t] == bs[t].b_seq()); basis_has(bs[t], t, ds, max_dim); }
    assert forall|t: int, i: int, j: int| 0 <= t <= d && 0 <= i < j < bases_of(bs)[t].len() implies rlt(fdiam(ds), #[trigger] bases_of(bs)[t][i], #[trigger] bases_of(bs)[t][j]) by { assert(bases_of(bs)[t] == bs[t].b_seq()); basis_has(bs[t], t, ds, max_dim); }
}
/// the facets of a simplex
pub proof fn facets<CF: NonZeroCoefficient + Invertible>(m: RipsBoundary<CF>, x: RipsIndex, k: int, y: RipsIndex)
    requires m.m_wf(), simp(x, k, m.distances@), coef(m.m_col(x), y) is Some,
    ensures k > 0, simp(y, k - 1, m.distances@),
{
    let n = m.distances@.len() as usize;
    let vs = verts(x.0, n);
    let s = m.m_col(x);
    simp_verts(x, k, m.distances@);
    if !has_row(s, y) { coef_absent(s, y); }
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == y;
    assert(s[i] == bd_term::<CF>(vs, n + 1, i));
    facet_code(vs, n, i);
}
/// every simplex of dimension `k` has a coboundary within the index range
pub proof fn simp_cb(x: RipsIndex, k: int, ds: Dists, d: usize)
    requires rips_ok(ds, d), simp(x, k, ds), 0 <= k < d,
    ensures cb_ok(verts(x.0, ds.len() as usize), ds.len() as int),
{
    let n = ds.len() as int;
    let vs = verts(x.0, n as usize);
    simp_verts(x, k, ds);
    assert(0 <= vs[0] < n);
    assert forall|v: usize| v < n && !vs.contains(v) implies code(#[trigger] cofacet(vs, v), n + 1) <= usize::MAX by {
        insert_simplex(vs, n, v, pos(vs, v));
        assert(simplex_on(cofacet(vs, v), n));
    }
}
/// the cofacets of a simplex
pub proof fn cofacets<CF: NonZeroCoefficient + Invertible>(m: RipsCoboundary<CF>, x: RipsIndex, k: int, d: usize, i: int)
    requires m.m_wf(), rips_ok(m.distances@, d), simp(x, k, m.distances@), 0 <= k < d, 0 <= i < m.m_col(x).len(),
    ensures simp(m.m_col(x)[i].1, k + 1, m.distances@),
{
    let n = m.distances@.len() as usize;
    let vs = verts(x.0, n);
    simp_cb(x, k, m.distances@, d);
    simp_verts(x, k, m.distances@);
    let l = cb_from::<CF>(vs, 0, n as int);
    cb_lists::<CF>(vs, 0, n as int);
    assert(cb_item(l[i], vs, 0, n as int));
    let v = l[i].2;
    insert_code(vs, n, v);
    insert_simplex(vs, n as int, v, pos(vs, v));
}
pub proof fn cofacet_rows<CF: NonZeroCoefficient + Invertible>(m: RipsCoboundary<CF>, x: RipsIndex, k: int, d: usize, y: RipsIndex)
    requires m.m_wf(), rips_ok(m.distances@, d), simp(x, k, m.distances@), 0 <= k < d, coef(m.m_col(x), y) is Some,
    ensures simp(y, k + 1, m.distances@),
{
    let s = m.m_col(x);
    if !has_row(s, y) { coef_absent(s, y); }
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == y;
    cofacets(m, x, k, d, i);
}
pub proof fn one_level(x: RipsIndex, s: int, t: int, ds: Dists)
    requires simp(x, s, ds), simp(x, t, ds),
    ensures s == t,
{}
/// the Rips boundary and coboundary are dual
pub proof fn rips_dual<CF: NonZeroCoefficient + Invertible>(b: RipsBoundary<CF>, c: RipsCoboundary<CF>, hb: Seq<SingleDimRipsBasisWithFilt>, h: usize, cb: Seq<SingleDimRipsBasisWithFilt>, k: usize)
    requires
        b.m_wf(), c.m_wf(), b.distances == c.distances, k < usize::MAX, rips_ok(b.distances@, h), rips_ok(b.distances@, (k + 1) as usize),
        rips_bases(hb, h as int, b.distances@), rips_bases(cb, k as int, b.distances@),
    ensures dual_levels(fdiam(b.distances@), dmap(&b), dmap(&c), bases_of(hb), bases_of(cb)),
{
    let ds = b.distances@;
    let (hs, cs) = (bases_of(hb), bases_of(cb));
    level_has(hb, h as int, ds, h);
    level_has(cb, k as int, ds, (k + 1) as usize);
    assert forall|t: int, y: RipsIndex, x: RipsIndex| 0 <= t < hs.len() && #[trigger] hs[t].contains(y) && (#[trigger] coef(dmap(&b)(y), x)) is Some implies t > 0 && hs[t - 1].contains(x) by { facets(b, y, t, x); }
    assert forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t < cs.len() && #[trigger] cs[t].contains(x) && (#[trigger] coef(dmap(&c)(x), y)) is Some implies (t + 1 < hs.len() ==> hs[t + 1].contains(y)) && forall|s: int| 0 <= s < cs.len() && #[trigger] cs[s].contains(y) ==> s == t + 1 by {
        cofacet_rows(c, x, t, (k + 1) as usize, y);
    }
    assert forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t < cs.len() && t + 1 < hs.len() && #[trigger] cs[t].contains(x) && hs[t + 1].contains(y) implies #[trigger] coef(dmap(&c)(x), y) == coef(dmap(&b)(y), x) by {
        simp_cb(x, t, ds, (k + 1) as usize);
        theorem_transpose(b, c, x, y);
    }
}
/// the boundary, highest dimension first, is a filtered complex
pub proof fn rips_homology_complex<CF: NonZeroCoefficient + Invertible>(b: RipsBoundary<CF>, hb: Seq<SingleDimRipsBasisWithFilt>, h: usize)
    requires b.m_wf(), rips_ok(b.distances@, h), rips_bases(hb, h as int, b.distances@),
    ensures
        cl_cx(fdiam(b.distances@), dmap(&b), bases_of(hb).reverse()),
        forall|x: RipsIndex| #[trigger] in_subs(bases_of(hb).reverse(), x) ==> b.m_dom(x),
{
    let ds = b.distances@;
    let (f, d, hs) = (fdiam(ds), dmap(&b), bases_of(hb));
    let bs = hs.reverse();
    let n = hs.len() as int;
    level_has(hb, h as int, ds, h);
    assert forall|t: int, i: int| 0 <= t < bs.len() && 0 <= i < bs[t].len() implies simp(#[trigger] bs[t][i], n - 1 - t, ds) by { assert(hs[n - 1 - t].contains(hs[n - 1 - t][i])); }
    assert forall|t: int, i: int, j: int| 0 <= t < bs.len() && 0 <= i < j < bs[t].len() implies rlt(f, #[trigger] bs[t][i], #[trigger] bs[t][j]) by { assert(rlt(f, hs[n - 1 - t][i], hs[n - 1 - t][j])); }
    assert forall|t: int, k: int, x: RipsIndex| 0 <= t < bs.len() && 0 <= k < bs[t].len() && (#[trigger] coef(d(#[trigger] bs[t][k]), x)) is Some implies next_row(bs, t, x) by {
        facets(b, bs[t][k], n - 1 - t, x);
        assert(bs[t + 1] == hs[n - 1 - t - 1]);
    }
    assert forall|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() implies is_null(mulcol(d, d(#[trigger] bs[t][k]))) by { theorem_boundary_squared(b, bs[t][k]); }
}
/// the reversed coboundary, lowest dimension first, is a filtered complex
pub proof fn rips_cohomology_complex<CF: NonZeroCoefficient + Invertible>(c: RipsCoboundary<CF>, cb: Seq<SingleDimRipsBasisWithFilt>, k: usize)
    requires c.m_wf(), k + 2 < usize::MAX, rips_ok(c.distances@, (k + 2) as usize), rips_bases(cb, k as int, c.distances@),
    ensures
        cl_cx(rfilt(fdiam(c.distances@)), rmap(dmap(&c)), rev_levels(bases_of(cb))),
        forall|x: Reverse<RipsIndex>| #[trigger] in_subs(rev_levels(bases_of(cb)), x) ==> c.m_dom(x.0),
{
    let ds = c.distances@;
    let (f, d, cs) = (fdiam(ds), dmap(&c), bases_of(cb));
    let bs = rev_levels(cs);
    let h = (k + 2) as usize;
    level_has(cb, k as int, ds, h);
    assert forall|t: int, i: int| 0 <= t < bs.len() && 0 <= i < bs[t].len() implies simp((#[trigger] bs[t][i]).0, t, ds) by { assert(cs[t].contains(cs[t][cs[t].len() - 1 - i])); }
    assert forall|t: int, i: int, j: int| 0 <= t < bs.len() && 0 <= i < j < bs[t].len() implies rlt(rfilt(f), #[trigger] bs[t][i], #[trigger] bs[t][j]) by {
        let l = cs[t].len();
        assert(rlt(f, cs[t][l - 1 - j], cs[t][l - 1 - i]));
        rlt_flip(f, cs[t][l - 1 - i], cs[t][l - 1 - j]);
    }
    assert forall|t: int, i: int, x: Reverse<RipsIndex>| 0 <= t < bs.len() && 0 <= i < bs[t].len() && (#[trigger] coef(rmap(d)(#[trigger] bs[t][i]), x)) is Some implies next_row(bs, t, x) by {
        let y = bs[t][i].0;
        coef_rev(d(y), x.0);
        assert(Reverse(x.0) == x);
        cofacet_rows(c, y, t, h, x.0);
        if t + 1 < bs.len() { rev_has(cs[t + 1], x.0); assert(cs[t + 1].contains(x.0)); }
        else if in_subs(bs, x) { let s = level_of(bs, x); rev_has(cs[s], x.0); assert(cs[s].contains(x.0)); }
    }
    assert forall|t: int, i: int| 0 <= t < bs.len() && 0 <= i < bs[t].len() implies is_null(mulcol(rmap(d), rmap(d)(#[trigger] bs[t][i]))) by {
        let y = bs[t][i].0;
        simp_cb(y, t, ds, h);
        assert forall|j: int| 0 <= j < c.m_col(y).len() implies c.m_dom((#[trigger] c.m_col(y)[j]).1) by { cofacets(c, y, t, h, j); simp_cb(c.m_col(y)[j].1, t + 1, ds, h); }
        theorem_coboundary_squared(c, y);
        mulcol_flip(d, c.m_col(y));
        let z = mulcol(d, c.m_col(y));
        assert forall|x: Reverse<RipsIndex>| (#[trigger] coef(rev_rows(z), x)) is None by { coef_rev(z, x.0); assert(coef(z, x.0) is None); assert(Reverse(x.0) == x); }
    }
    assert forall|x: Reverse<RipsIndex>| #[trigger] in_subs(bs, x) implies c.m_dom(x.0) by {
        let (t, i) = choose|t: int, i: int| 0 <= t < bs.len() && 0 <= i < bs[t].len() && #[trigger] bs[t][i] == x;
        simp_cb(x.0, t, ds, h);
    }
}

// ---------------------------------------------------------------- what the reductions are run on
/// dimensions `h`, `h - 1`, .., 0
pub open spec fn down(os: Seq<usize>, h: int) -> bool { os.len() == h + 1 && forall|t: int| 0 <= t <= h ==> #[trigger] os[t] == h - t }
/// dimensions 0, 1, .., `k`
pub open spec fn up(os: Seq<usize>, k: int) -> bool { os.len() == k + 1 && forall|t: int| 0 <= t <= k ==> #[trigger] os[t] == t }
/// the clearing algorithm may be run on the boundary matrix that is built
pub proof fn theorem_rips_homology_ready<CF: NonZeroCoefficient + Invertible>(r: &RipsBoundaryAllDims<CF>, h: usize, os: Seq<usize>)
    requires is_field::<CF>(), rips_ok(r.matrix.distances@, h), rips_bases(r.basis.0@, h as int, r.matrix.distances@), down(os, h as int),
    ensures bd_ok(&r, os), fmap(&r) == fdiam(r.matrix.distances@), dmap(&r) == dmap(&r.matrix), subs(&r, os) == bases_of(r.basis.0@).reverse(),
{
    field_ring::<CF>();
    let hs = bases_of(r.basis.0@);
    assert(fmap(&r) =~= fdiam(r.matrix.distances@));
    assert(dmap(&r) =~= dmap(&r.matrix));
    assert forall|t: int| 0 <= t < os.len() implies #[trigger] subs(&r, os)[t] == hs.reverse()[t] by { assert(os[t] == h - t); }
    assert(subs(&r, os) =~= hs.reverse());
    rips_homology_complex(r.matrix, r.basis.0@, h);
}
/// the clearing algorithm may be run on the reversed coboundary matrix that is built
pub proof fn theorem_rips_cohomology_ready<CF: NonZeroCoefficient + Invertible>(c: &ReverseMatrix<RipsCoboundaryAllDims<CF>>, k: usize, os: Seq<usize>)
    requires
        is_field::<CF>(), k + 2 < usize::MAX, rips_ok(c.oracle.matrix.distances@, (k + 2) as usize), rips_bases(c.oracle.basis.0@, k as int, c.oracle.matrix.distances@), up(os, k as int),
    ensures
        bd_ok(&c, os), fmap(&c) == rfilt(fdiam(c.oracle.matrix.distances@)), dmap(&c) == rmap(dmap(&c.oracle.matrix)), subs(&c, os) == rev_levels(bases_of(c.oracle.basis.0@)),
{
    field_ring::<CF>();
    let cs = bases_of(c.oracle.basis.0@);
    assert(fmap(&c) =~= rfilt(fdiam(c.oracle.matrix.distances@)));
    assert(dmap(&c) =~= rmap(dmap(&c.oracle.matrix)));
    assert forall|t: int| 0 <= t < os.len() implies #[trigger] subs(&c, os)[t] == rev_levels(cs)[t] by { assert(os[t] == t); }
    assert(subs(&c, os) =~= rev_levels(cs));
    rips_cohomology_complex(c.oracle.matrix, c.oracle.basis.0@, k);
}
/// The barcode: the pairs of simplices and the unpaired simplices are the same, read off the reduced boundaries
/// (`par`, `ess`) or the reduced coboundaries in reverse order (`cpar`, `cess`), in every dimension up to the
/// coboundary's that has boundaries one dimension up.
pub proof fn theorem_rips_barcode<CF: NonZeroCoefficient + Invertible>(r: &RipsBoundaryAllDims<CF>, h: usize, os: Seq<usize>, c: &ReverseMatrix<RipsCoboundaryAllDims<CF>>, k: usize, cos: Seq<usize>,
    cols: Map<RipsIndex, ReductionColumn<CF, RipsIndex>>, ess: Set<RipsIndex>, par: Set<(RipsIndex, RipsIndex)>,
    ccols: Map<Reverse<RipsIndex>, ReductionColumn<CF, Reverse<RipsIndex>>>, cess: Set<Reverse<RipsIndex>>, cpar: Set<(Reverse<RipsIndex>, Reverse<RipsIndex>)>)
    requires
        is_field::<CF>(), r.matrix.distances == c.oracle.matrix.distances,
        rips_ok(r.matrix.distances@, h), rips_bases(r.basis.0@, h as int, r.matrix.distances@), down(os, h as int),
        k + 2 < usize::MAX, rips_ok(r.matrix.distances@, (k + 2) as usize), rips_bases(c.oracle.basis.0@, k as int, r.matrix.distances@), up(cos, k as int),
        clear_ok(fmap(&r), dmap(&r), subs(&r, os), cols, ess, par),
        clear_ok(fmap(&c), dmap(&c), subs(&c, cos), ccols, cess, cpar),
    ensures
        forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, r.matrix.distances@) ==> (#[trigger] par.contains((x, y)) <==> cpar.contains((Reverse(y), Reverse(x)))),
        forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, r.matrix.distances@) && #[trigger] par.contains((x, y)) ==> simp(y, t + 1, r.matrix.distances@) && leq(fdiam(r.matrix.distances@)(x), fdiam(r.matrix.distances@)(y)),
        forall|t: int, x: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, r.matrix.distances@) ==> (ess.contains(x) <==> cess.contains(Reverse(x))),
{
    field_ring::<CF>();
    let ds = r.matrix.distances@;
    let (hs, cs) = (bases_of(r.basis.0@), bases_of(c.oracle.basis.0@));
    let (f, b, d) = (fdiam(ds), dmap(&r.matrix), dmap(&c.oracle.matrix));
    theorem_rips_homology_ready(r, h, os);
    theorem_rips_cohomology_ready(c, k, cos);
    rips_ok_less(ds, (k + 1) as usize, (k + 2) as usize);
    rips_dual(r.matrix, c.oracle.matrix, r.basis.0@, h, c.oracle.basis.0@, k);
    theorem_same_barcode(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar);
    level_has(c.oracle.basis.0@, k as int, ds, (k + 1) as usize);
    level_has(r.basis.0@, h as int, ds, h);
    assert forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, ds) implies (#[trigger] par.contains((x, y)) <==> cpar.contains((Reverse(y), Reverse(x)))) by { assert(cs[t].contains(x)); }
    assert forall|t: int, x: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, ds) implies (ess.contains(x) <==> cess.contains(Reverse(x))) by { assert(cs[t].contains(x)); }
    assert forall|t: int, x: RipsIndex, y: RipsIndex| 0 <= t <= k && t < h && #[trigger] simp(x, t, ds) && #[trigger] par.contains((x, y)) implies simp(y, t + 1, ds) && leq(f(x), f(y)) by {
        assert(cs[t].contains(x));
        same_pair(f, b, d, hs, cs, cols, ess, par, ccols, cess, cpar, t, x, y);
        assert(hs[t + 1].contains(y));
        let hi = hs[t + 1];
        assert(hs.reverse()[hs.len() - 1 - (t + 1)] == hi);
        assert(valid(f, b, hs.reverse()[hs.len() - 1 - (t + 1)], vcl(b, cols)));
        assert forall|z: RipsIndex| #[trigger] hi.contains(z) implies simp(z, t + 1, ds) by {}
        assert forall|i: int, j: int| 0 <= i < j < hi.len() implies rlt(f, #[trigger] hi[i], #[trigger] hi[j]) by {}
        assert(is_lead(f, rcol(b, vcl(b, cols))(y), x));
        pair_times(r.matrix, hi, vcl(b, cols), t + 1, y, x);
    }
}
/// a death is no earlier than its birth
pub proof fn pair_times<CF: NonZeroCoefficient + Invertible>(m: RipsBoundary<CF>, hi: Seq<RipsIndex>, w: spec_fn(RipsIndex) -> Seq<(CF, RipsIndex)>, t: int, y: RipsIndex, x: RipsIndex)
    requires
        m.m_wf(), dist_ok(m.distances@), m.distances@.len() < usize::MAX, valid(fdiam(m.distances@), dmap(&m), hi, w), hi.contains(y), is_lead(fdiam(m.distances@), rcol(dmap(&m), w)(y), x),
        forall|z: RipsIndex| #[trigger] hi.contains(z) ==> simp(z, t, m.distances@),
        forall|i: int, j: int| 0 <= i < j < hi.len() ==> rlt(fdiam(m.distances@), #[trigger] hi[i], #[trigger] hi[j]),
    ensures leq(fdiam(m.distances@)(x), fdiam(m.distances@)(y)),
{
    let (f, d) = (fdiam(m.distances@), dmap(&m));
    let j = hi.index_of(y);
    assert(tri(hi, w(hi[j]), j));
    let i = comb_row(d, hi, w(y), j, x);
    assert(hi.contains(hi[i]));
    theorem_facets_first(m, hi[i]);
    let s = m.m_col(hi[i]);
    if !has_row(s, x) { coef_absent(s, x); }
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).1 == x;
    assert(leq(f(s[k].1), f(hi[i])));
    axiom_notnan_lawful::<NotNan<f64>>();
    if i < j {
        assert(rlt(f, hi[i], hi[j]));
        leq_trans(f(x), f(hi[i]), f(y));
    }
}

} // verus!
