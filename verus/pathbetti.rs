//! Ghost theory: the bars of the grounded path complex of a digraph count the persistent Betti numbers of its boundary.
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::models::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::ints::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::reduce::*;
use crate::reduction::*;
use crate::clearing::*;
use crate::digraphs::*;
use crate::coboundary::*;
use crate::boundary::*;
use crate::bars::{Table, RCell, pf, pd, tc, tcol, tcol_is, rd, rf, cells, two_bases, on_vertices, is_persistence, persistence_by, reversed_listing, rlt_rev, basis_entry, want_times, row_degree};
use crate::agree::{rfilt, rmap, rev_levels, dual_levels};
use crate::persist::persistent_betti;
use crate::cobetti::{sorted, sorted_list, cobars_at, theorem_coclearing_betti};
verus! {

/// the cells of degree `t` of the path complex
pub open spec fn cells_at(e: Et, es: Set<(u16, u16)>, n: u16, t: int) -> spec_fn(PathHomCell) -> bool { |x: PathHomCell| degree(x) == t && in_filt(e, n, es, x) }
pub open spec fn cell_key() -> spec_fn(PathHomCell) -> int { |x: PathHomCell| key(x) }
/// the dimension of the image of the homology of the complex at `p` in the homology at `q`, in degree `t`, is the number
/// of cells that are born up to `p` and are essential or paired with a cell later than `q`
pub open spec fn path_betti(e: Et, es: Set<(u16, u16)>, n: u16, ess: Set<RCell>, par: Set<(RCell, RCell)>, t: int, p: Time, q: Time) -> bool {
    persistent_betti(pf(e, es), pd(), cells_at(e, es, n, t), cells_at(e, es, n, t + 1), cobars_at(pf(e, es), cells_at(e, es, n, t), ess, par, p, q), p, q)
}
pub proof fn cells_listed(e: Et, es: Set<(u16, u16)>, n: u16, b: Seq<(Time, PathHomCell)>, t: int)
    requires (t == 0 && listing(b, want0(n))) || (t == 1 && listing(b, want1(e, es, n))), on_vertices(es, n),
    ensures forall|x: PathHomCell| #[trigger] cells(b).contains(x) <==> cells_at(e, es, n, t)(x), sorted(pf(e, es), cells(b)),
{
    want_times(e, es, n);
    let c = cells(b);
    assert forall|x: PathHomCell| #[trigger] c.contains(x) <==> cells_at(e, es, n, t)(x) by {
        if c.contains(x) { let k = c.index_of(x); assert(c[k] == x); basis_entry(e, es, n, b, k); assert(b[k].1 == x); }
        if cells_at(e, es, n, t)(x) {
            let w = (ftime(e, es, x), x);
            if t == 0 { assert(want0(n)(w)); } else { assert(want1(e, es, n)(w)); }
            let k = b.index_of(w);
            assert(b[k] == w); assert(c[k] == x);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies rlt(pf(e, es), #[trigger] c[i], #[trigger] c[j]) by {
        let l = b.len();
        if t == 0 { reversed_listing(e, es, b, want0(n), l - 1 - j, l - 1 - i); } else { reversed_listing(e, es, b, want1(e, es, n), l - 1 - j, l - 1 - i); }
        assert(rev_seq(c)[l - 1 - j] == Reverse(c[j]) && rev_seq(c)[l - 1 - i] == Reverse(c[i]));
        rlt_rev(e, es, c[j], c[i]);
    }
}
pub proof fn theorem_path_betti(e: Et, es: Set<(u16, u16)>, n: u16, ess: Set<RCell>, par: Set<(RCell, RCell)>, t: int, p: Time, q: Time)
    requires is_persistence(e, es, n, ess, par), on_vertices(es, n), 0 <= t < 2,
    ensures path_betti(e, es, n, ess, par, t, p, q),
{
    z2_is_field(); field_ring::<Z2>();
    let (f, b, d) = (pf(e, es), pd(), tc(e, es, n));
    let (b0, b1, cols) = choose|b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, cols: Map<RCell, ReductionColumn<Z2, RCell>>| #[trigger] persistence_by(e, es, n, b0, b1, cols, ess, par);
    assert forall|x: PathHomCell, y: PathHomCell| #[trigger] cell_key()(x) == #[trigger] cell_key()(y) implies x == y by { key_inj(x, y); }
    let k = lex5(5, 0, 0, 0, 0) as nat;
    let l2 = sorted_list(f, cells_at(e, es, n, 2), cell_key(), k);
    assert forall|x: PathHomCell| #[trigger] l2.contains(x) <==> cells_at(e, es, n, 2)(x) by { key_bound(x); assert(cell_key()(x) == key(x)); }
    let (l0, l1) = (cells(b0), cells(b1));
    cells_listed(e, es, n, b0, 0); cells_listed(e, es, n, b1, 1);
    let hs = seq![l0, l1, l2];
    let cs = seq![l0, l1];
    path_levels(e, es, n, l0, l1, l2);
    assert(rev_levels(cs) =~= two_bases(b0, b1));
    assert(rmap(d) =~= rd(e, es, n));
    assert(rfilt(f) =~= rf(e, es));
    assert forall|y: PathHomCell| hs[t + 1].contains(y) implies is_null(mulcol(b, #[trigger] b(y))) by {
        square_of(y);
    }
    theorem_coclearing_betti(f, b, d, hs, cs, cols, ess, par, t, p, q);
    assert(crate::agree::in_list(hs[t]) =~= cells_at(e, es, n, t));
    assert(crate::agree::in_list(hs[t + 1]) =~= cells_at(e, es, n, t + 1));
}
pub proof fn square_of(y: PathHomCell)
    ensures is_null(mulcol(pd(), pd()(y))),
{
    z2_is_field(); field_ring::<Z2>();
    let m: GrPPHBoundary<Z2, &Table> = arbitrary();
    assert(dmap(&m) =~= pd());
    theorem_boundary_squared(m, y);
}
pub proof fn path_levels(e: Et, es: Set<(u16, u16)>, n: u16, l0: Seq<PathHomCell>, l1: Seq<PathHomCell>, l2: Seq<PathHomCell>)
    requires
        sorted(pf(e, es), l0), sorted(pf(e, es), l1), sorted(pf(e, es), l2),
        forall|x: PathHomCell| #[trigger] l0.contains(x) <==> cells_at(e, es, n, 0)(x), forall|x: PathHomCell| #[trigger] l1.contains(x) <==> cells_at(e, es, n, 1)(x), forall|x: PathHomCell| #[trigger] l2.contains(x) <==> cells_at(e, es, n, 2)(x),
    ensures dual_levels(pf(e, es), pd(), tc(e, es, n), seq![l0, l1, l2], seq![l0, l1]),
{
    let (f, b, d) = (pf(e, es), pd(), tc(e, es, n));
    let hs = seq![l0, l1, l2];
    let cs = seq![l0, l1];
    assert forall|t: int, x: PathHomCell| 0 <= t < 3 implies (#[trigger] hs[t].contains(x) <==> degree(x) == t && in_filt(e, n, es, x)) by {}
    assert forall|t: int, x: PathHomCell| 0 <= t < 2 implies (#[trigger] cs[t].contains(x) <==> degree(x) == t && in_filt(e, n, es, x)) by {}
    assert forall|t: int, y: PathHomCell, x: PathHomCell| 0 <= t < hs.len() && #[trigger] hs[t].contains(y) && (#[trigger] coef(b(y), x)) is Some implies t > 0 && hs[t - 1].contains(x) by {
        row_degree::<Z2>(y, x);
        faces_in::<Z2>(e, es, n, y);
        if !has_row(bd::<Z2>(y), x) { coef_absent(bd::<Z2>(y), x); }
    }
    assert forall|t: int, x: PathHomCell, y: PathHomCell| 0 <= t < cs.len() && #[trigger] cs[t].contains(x) && (#[trigger] coef(d(x), y)) is Some implies (t + 1 < hs.len() ==> hs[t + 1].contains(y)) && forall|s: int| 0 <= s < cs.len() && #[trigger] cs[s].contains(y) ==> s == t + 1 by {
        tcol_is(e, es, n, x);
        assert(coef(tcol(e, es, n, x), y) == tr_coef::<Z2>(e, es, n, x, y));
        row_degree::<Z2>(y, x);
    }
    assert forall|t: int, x: PathHomCell, y: PathHomCell| 0 <= t < cs.len() && t + 1 < hs.len() && #[trigger] cs[t].contains(x) && hs[t + 1].contains(y) implies #[trigger] coef(d(x), y) == coef(b(y), x) by {
        tcol_is(e, es, n, x);
        assert(coef(tcol(e, es, n, x), y) == tr_coef::<Z2>(e, es, n, x, y));
    }
    assert forall|t: int, i: int, j: int| 0 <= t < hs.len() && 0 <= i < j < hs[t].len() implies rlt(f, #[trigger] hs[t][i], #[trigger] hs[t][j]) by {
        if t == 0 { assert(rlt(f, l0[i], l0[j])); } else if t == 1 { assert(rlt(f, l1[i], l1[j])); } else { assert(rlt(f, l2[i], l2[j])); }
    }
    assert forall|t: int, i: int, j: int| 0 <= t < cs.len() && 0 <= i < j < cs[t].len() implies rlt(f, #[trigger] cs[t][i], #[trigger] cs[t][j]) by {
        if t == 0 { assert(rlt(f, l0[i], l0[j])); } else { assert(rlt(f, l1[i], l1[j])); }
    }
}

/// the same for every degree and every two times
pub open spec fn path_bettis(e: Et, es: Set<(u16, u16)>, n: u16, ess: Set<RCell>, par: Set<(RCell, RCell)>) -> bool { forall|t: int, p: Time, q: Time| 0 <= t < 2 ==> #[trigger] path_betti(e, es, n, ess, par, t, p, q) }
pub proof fn path_bettis_all(e: Et, es: Set<(u16, u16)>, n: u16, ess: Set<RCell>, par: Set<(RCell, RCell)>)
    requires is_persistence(e, es, n, ess, par), on_vertices(es, n),
    ensures path_bettis(e, es, n, ess, par),
{
    assert forall|t: int, p: Time, q: Time| 0 <= t < 2 implies #[trigger] path_betti(e, es, n, ess, par, t, p, q) by { theorem_path_betti(e, es, n, ess, par, t, p, q); }
}

} // verus!
