@@file phlite_grpph/src/boundary.rs boundary
@@use
use crate::prelude::*;
use crate::ints::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::digraphs::*;
use crate::coboundary::*;
use crate::reduce::is_null;
use core::cmp::Ordering;
use std::marker::PhantomData;
use vstd::std_specs::cmp::*;
@@fn GrPPHBoundary::build
@ret r
@spec
    ensures r.matrix.filtration == filtration, r.matrix.edge_set == edge_set, r.basis == basis,
@@inside <GrPPHBoundary as MatrixOracle>
    open spec fn m_wf(&self) -> bool { is_ring::<CF>() }
    /// cells whose faces have a time
    open spec fn m_dom(&self, col: PathHomCell) -> bool { forall|i: int| 0 <= i < bd::<CF>(col).len() ==> row_ok(self.filtration, self.edge_set@, (#[trigger] bd::<CF>(col)[i]).1) }
    open spec fn m_col(&self, col: PathHomCell) -> Seq<(CF, PathHomCell)> { bd(col) }
    open spec fn m_row(&self, row: PathHomCell) -> bool { row_ok(self.filtration, self.edge_set@, row) }
    proof fn m_ring(&self) {}
@@fn <GrPPHBoundary as MatrixOracle>::column
@start
    proof { ring_exec::<CF>(); }
@end
    proof { assert(vp_ret@ =~= bd::<CF>(col)); }
@@inside <GrPPHBoundary as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { true }
    open spec fn f_val(&self, row: PathHomCell) -> NotNan<f64> { ftime(self.filtration.et(), self.edge_set@, row) }
@@fn <GrPPHBoundary as HasRowFiltration>::filtration_value
@start
    proof { time_lawful(); }

@@append
/// the coefficient of `r` in target minus source
pub open spec fn at_node<C: NonZeroCoefficient>(r: PathHomCell, v: u16) -> Option<C> { if r == PathHomCell::Node(v) { Some(po()) } else { None } }
pub open spec fn off_node<C: NonZeroCoefficient>(r: PathHomCell, v: u16) -> Option<C> { if r == PathHomCell::Node(v) { Some(ne()) } else { None } }
pub open spec fn diff<C: NonZeroCoefficient>(r: PathHomCell, s: u16, t: u16) -> Option<C> { sadd(at_node(r, t), off_node(r, s)) }
pub proof fn diff_edge<C: NonZeroCoefficient>(r: PathHomCell, s: u16, t: u16)
    requires is_ring::<C>(),
    ensures
        coef(bd::<C>(PathHomCell::Edge(s, t)), r) == diff::<C>(r, s, t),
        smul(coef(bd::<C>(PathHomCell::Edge(s, t)), r), Some(po::<C>())) == diff::<C>(r, s, t),
        smul(coef(bd::<C>(PathHomCell::Edge(s, t)), r), Some(ne::<C>())) == diff::<C>(r, t, s),
{
    coef_pushes::<C, PathHomCell>(r);
    let (p, n) = (po::<C>(), ne::<C>());
    smul_one(diff::<C>(r, s, t));
    smul_dist(at_node::<C>(r, t), off_node::<C>(r, s), Some(n));
    smul_one(Some(n));
    // (-1)(-1) = 1
    sneg::<C>(p);
    sadd_comm(Some(p), Some(n));
    smul_dist(Some(p), Some(n), Some(n));
    sadd_comm(Some(n), smul(Some(n), Some(n)));
    sadd_cancel(smul(Some(n), Some(n)), Some(p), Some(n));
    sadd_comm(off_node::<C>(r, t), at_node::<C>(r, s));
}
/// telescoping
pub proof fn diff_chain<C: NonZeroCoefficient>(r: PathHomCell, a: u16, b: u16, c: u16)
    requires is_ring::<C>(),
    ensures
        sadd(diff::<C>(r, a, b), diff::<C>(r, b, c)) == diff::<C>(r, a, c),
        sadd(diff::<C>(r, b, c), diff::<C>(r, a, b)) == diff::<C>(r, a, c),
        diff::<C>(r, a, a) is None,
{
    let (x, y) = (at_node::<C>(r, c), off_node::<C>(r, a));
    let (p, q) = (at_node::<C>(r, b), off_node::<C>(r, b));
    sneg::<C>(po::<C>());
    sadd_comm(p, q);
    assert(sadd(q, p) is None);
    // (x + q) + (p + y)
    sadd_assoc(x, q, sadd(p, y));
    sadd_assoc(q, p, y);
    sadd_comm(sadd(p, y), sadd(x, q));
}
/// the boundary of a boundary is zero, whatever the vertex labels
pub proof fn theorem_boundary_squared<CF: NonZeroCoefficient, F: DigraphFiltration>(m: GrPPHBoundary<CF, F>, col: PathHomCell)
    requires m.m_wf(),
    ensures is_null(mulcol(dmap(&m), m.m_col(col))),
{
    let d = dmap(&m);
    let s = m.m_col(col);
    assert forall|r: PathHomCell| (#[trigger] coef(mulcol(d, s), r)) is None by {
        mulcol_coef(d, s, r);
        mulc_pushes::<CF, PathHomCell, PathHomCell>(d, r);
        assert forall|k: PathHomCell| #[trigger] d(k) == bd::<CF>(k) by {}
        coef_pushes::<CF, PathHomCell>(r);
        match col {
            PathHomCell::Node(_) => {}
            PathHomCell::Edge(_, _) => {}
            PathHomCell::TwoCell(x) => match x {
                PathHom2Cell::DoubleEdge(a, b) => {
                    diff_edge::<CF>(r, a, b); diff_edge::<CF>(r, b, a);
                    diff_chain::<CF>(r, a, b, a);
                }
                PathHom2Cell::DirectedTriangle(a, b, c) => {
                    diff_edge::<CF>(r, b, c); diff_edge::<CF>(r, a, c); diff_edge::<CF>(r, a, b);
                    diff_chain::<CF>(r, b, c, a); diff_chain::<CF>(r, b, a, b); diff_chain::<CF>(r, b, b, b);
                }
                PathHom2Cell::LongSquare(a, b, c, e) => {
                    diff_edge::<CF>(r, c, e); diff_edge::<CF>(r, a, c); diff_edge::<CF>(r, b, e); diff_edge::<CF>(r, a, b);
                    diff_chain::<CF>(r, a, c, e); diff_chain::<CF>(r, a, e, b); diff_chain::<CF>(r, a, b, a); diff_chain::<CF>(r, a, a, a);
                }
            },
        }
    }
}
/// the documented boundaries
pub proof fn theorem_boundary_cells<CF: NonZeroCoefficient, F: DigraphFiltration>(m: GrPPHBoundary<CF, F>, a: u16, b: u16, c: u16, d: u16)
    requires m.m_wf(),
    ensures
        m.m_col(PathHomCell::Node(a)) =~= Seq::empty(),
        m.m_col(PathHomCell::Edge(a, b)) =~= seq![(po(), PathHomCell::Node(b)), (ne(), PathHomCell::Node(a))],
        m.m_col(PathHomCell::TwoCell(PathHom2Cell::DoubleEdge(a, b))) =~= seq![(po(), PathHomCell::Edge(a, b)), (po(), PathHomCell::Edge(b, a))],
        m.m_col(PathHomCell::TwoCell(PathHom2Cell::DirectedTriangle(a, b, c))) =~= seq![(po(), PathHomCell::Edge(b, c)), (ne(), PathHomCell::Edge(a, c)), (po(), PathHomCell::Edge(a, b))],
        m.m_col(PathHomCell::TwoCell(PathHom2Cell::LongSquare(a, b, c, d))) =~= seq![(po(), PathHomCell::Edge(c, d)), (po(), PathHomCell::Edge(a, c)), (ne(), PathHomCell::Edge(b, d)), (ne(), PathHomCell::Edge(a, b))],
{}
/// times that are never negative
pub open spec fn non_negative(e: Et) -> bool { forall|s: u16, t: u16| (#[trigger] e(s, t)) is Some ==> leq(nn(f64_zero()), e(s, t)->0) }
/// all cells of the boundary are in the filtration and none of them appears later
pub proof fn theorem_faces_first<CF: NonZeroCoefficient, F: DigraphFiltration>(m: GrPPHBoundary<CF, F>, col: PathHomCell)
    requires row_ok(m.filtration, m.edge_set@, col), non_negative(m.filtration.et()),
    ensures m.m_dom(col), forall|i: int| 0 <= i < m.m_col(col).len() ==> leq(m.f_val((#[trigger] m.m_col(col)[i]).1), m.f_val(col)),
{
    let e = m.filtration.et();
    let es = m.edge_set@;
    time_lawful();
    leq_refl(nn(f64_zero()));
    match col {
        PathHomCell::Node(_) => {}
        PathHomCell::Edge(a, b) => {}
        PathHomCell::TwoCell(x) => match x {
            PathHom2Cell::DoubleEdge(a, b) => { edge_first(e, es, a, b, e(b, a)->0); edge_first(e, es, b, a, e(a, b)->0); }
            PathHom2Cell::DirectedTriangle(a, b, c) => {
                let (p, q, r) = (e(a, b)->0, e(b, c)->0, e(a, c)->0);
                vmax_bounds(p, q); vmax_bounds(vmax(p, q), r);
                leq_trans(p, vmax(p, q), vmax(vmax(p, q), r)); leq_trans(q, vmax(p, q), vmax(vmax(p, q), r));
                edge_bound(e, es, a, b, vmax(vmax(p, q), r)); edge_bound(e, es, b, c, vmax(vmax(p, q), r)); edge_bound(e, es, a, c, vmax(vmax(p, q), r));
            }
            PathHom2Cell::LongSquare(a, b, c, d) => {
                let (p, q) = (e(a, b)->0, e(b, d)->0);
                let (r, s) = (e(a, c)->0, e(c, d)->0);
                let (x, y) = (vmax(p, q), vmax(r, s));
                let z = vmax(x, y);
                vmax_bounds(p, q); vmax_bounds(r, s); vmax_bounds(x, y);
                leq_trans(p, x, z); leq_trans(q, x, z); leq_trans(r, y, z); leq_trans(s, y, z);
                edge_bound(e, es, a, b, z); edge_bound(e, es, b, d, z); edge_bound(e, es, a, c, z); edge_bound(e, es, c, d, z);
            }
        },
    }
}
pub proof fn vmax_bounds(a: Time, b: Time)
    ensures leq(a, vmax(a, b)), leq(b, vmax(a, b)),
{ time_lawful(); leq_total(a, b); leq_refl(a); leq_refl(b); }
pub proof fn edge_bound(e: Et, es: Set<(u16, u16)>, a: u16, b: u16, z: Time)
    requires non_negative(e), e(a, b) is Some, leq(e(a, b)->0, z),
    ensures leq(ftime(e, es, PathHomCell::Edge(a, b)), z),
{ time_lawful(); leq_trans(nn(f64_zero()), e(a, b)->0, z); }
pub proof fn edge_first(e: Et, es: Set<(u16, u16)>, a: u16, b: u16, t: Time)
    requires non_negative(e), e(a, b) is Some,
    ensures leq(ftime(e, es, PathHomCell::Edge(a, b)), vmax(e(a, b)->0, t)), leq(ftime(e, es, PathHomCell::Edge(a, b)), vmax(t, e(a, b)->0)),
{ vmax_bounds(e(a, b)->0, t); vmax_bounds(t, e(a, b)->0); edge_bound(e, es, a, b, vmax(e(a, b)->0, t)); edge_bound(e, es, a, b, vmax(t, e(a, b)->0)); }
/// both matrices give a cell the same time
pub proof fn theorem_same_times<CF: NonZeroCoefficient, F: DigraphFiltration>(b: GrPPHBoundary<CF, F>, c: GrPPHCoboundary<CF, F>, x: PathHomCell)
    requires b.filtration == c.filtration, b.edge_set == c.edge_set,
    ensures b.m_row(x) == c.m_row(x), b.f_val(x) == c.f_val(x),
{}
/// what the coboundary lists appears no earlier than the cell itself
pub proof fn theorem_cofaces_later<CF: NonZeroCoefficient, F: DigraphFiltration>(c: GrPPHCoboundary<CF, F>, col: PathHomCell, row: PathHomCell)
    requires c.m_wf(), non_negative(c.filtration.et()), coef(c.m_col(col), row) is Some,
    ensures in_filt(c.filtration.et(), c.n_vertices, c.edge_set@, row), leq(c.f_val(col), c.f_val(row)),
{
    let (e, es, n) = (c.filtration.et(), c.edge_set@, c.n_vertices);
    transposed_exists(c, col);
    assert(coef(c.m_col(col), row) == tr_coef::<CF>(e, es, n, col, row));
    assert(tr_coef::<CF>(e, es, n, col, row) is Some);
    let b = GrPPHBoundary::<CF, F> { filtration: c.filtration, edge_set: c.edge_set, phantom: c.phantom };
    theorem_faces_first(b, row);
    coef_some_row(bd::<CF>(row), col);
    let i = choose|i: int| 0 <= i < bd::<CF>(row).len() && #[trigger] bd::<CF>(row)[i].1 == col;
    assert(b.m_col(row)[i].1 == col);
}
/// the coefficient of a cell of the filtration in a coboundary is that of the column in its boundary
pub proof fn theorem_transpose<CF: NonZeroCoefficient, F: DigraphFiltration>(b: GrPPHBoundary<CF, F>, c: GrPPHCoboundary<CF, F>, col: PathHomCell, row: PathHomCell)
    requires b.filtration == c.filtration, b.edge_set == c.edge_set,
    ensures coef(c.m_col(col), row) == (if in_filt(c.filtration.et(), c.n_vertices, c.edge_set@, row) { coef(b.m_col(row), col) } else { None }),
{ transposed_exists(c, col); assert(coef(c.m_col(col), row) == tr_coef::<CF>(c.filtration.et(), c.edge_set@, c.n_vertices, col, row)); }
/// the faces of a cell of the filtration are in the filtration
pub proof fn faces_in<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, x: PathHomCell)
    requires in_filt(e, n, es, x),
    ensures forall|k: PathHomCell| #[trigger] has_row(bd::<C>(x), k) ==> in_filt(e, n, es, k),
{
    let t = bd::<C>(x);
    assert forall|k: PathHomCell| #[trigger] has_row(t, k) implies in_filt(e, n, es, k) by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == k;
        match x {
            PathHomCell::Node(_) => {}
            PathHomCell::Edge(_, _) => {}
            PathHomCell::TwoCell(y) => match y { PathHom2Cell::DoubleEdge(..) => {}, PathHom2Cell::DirectedTriangle(..) => {}, PathHom2Cell::LongSquare(..) => {} },
        }
    }
}
/// the coboundary of a coboundary is zero
pub proof fn theorem_coboundary_squared<CF: NonZeroCoefficient, F: DigraphFiltration>(m: GrPPHCoboundary<CF, F>, col: PathHomCell)
    requires m.m_wf(),
    ensures is_null(mulcol(dmap(&m), m.m_col(col))),
{
    let (e, es, n) = (m.filtration.et(), m.edge_set@, m.n_vertices);
    let b = GrPPHBoundary::<CF, F> { filtration: m.filtration, edge_set: m.edge_set, phantom: m.phantom };
    let d = dmap(&m);
    let s = m.m_col(col);
    transposed_exists(m, col);
    assert forall|k: PathHomCell, r: PathHomCell| #[trigger] coef(d(k), r) == tr_coef::<CF>(e, es, n, k, r) by { transposed_exists(m, k); assert(d(k) == m.m_col(k)); }
    assert forall|r: PathHomCell| (#[trigger] coef(mulcol(d, s), r)) is None by {
        mulcol_coef(d, s, r);
        if in_filt(e, n, es, r) {
            let t = bd::<CF>(r);
            faces_in::<CF>(e, es, n, r);
            assert forall|k: PathHomCell| #[trigger] has_row(t, k) implies coef(d(k), r) == coef(t, k) && coef(s, k) == coef(dmap(&b)(k), col) by { assert(coef(s, k) == tr_coef::<CF>(e, es, n, col, k)); }
            assert forall|k: PathHomCell| !#[trigger] has_row(t, k) implies coef(d(k), r) is None || !has_row(s, k) by { coef_absent(t, k); }
            mulc_transposed(d, s, r, dmap(&b), t, col);
            theorem_boundary_squared(b, r);
            mulcol_coef(dmap(&b), t, col);
            assert(coef(mulcol(dmap(&b), b.m_col(r)), col) is None);
        } else {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] contrib(d, s, r, i)) is None by { assert(coef(d(s[i].1), r) == tr_coef::<CF>(e, es, n, s[i].1, r)); }
            mulc_none(d, s, r);
        }
    }
}
