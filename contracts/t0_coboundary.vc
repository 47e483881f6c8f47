@@file phlite_grpph/src/coboundary.rs coboundary
@@use
use crate::prelude::*;
use crate::ints::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::digraphs::*;
use core::cmp::Ordering;
use std::marker::PhantomData;
use vstd::std_specs::cmp::*;

@@fn PathHomCell::dimension
@ret r
@spec
    ensures r == degree(*self),
@@inside <PathHomCell as BasisElement>
    proof fn lawful_elem() { cell_lawful(); }

## ---------------------------------------------------------------- filtrations of digraphs
@@inside DigraphFiltration
    /// the time of every edge
    spec fn et(&self) -> Et;
    /// the pairs that may be asked for
    spec fn e_dom(&self, s: u16, t: u16) -> bool;
@@fn DigraphFiltration::edge_time
@ret r
@spec
    requires self.e_dom(*s, *t),
    ensures r == (self.et())(*s, *t),
@@inside <VecDigraphFiltration as DigraphFiltration>
    open spec fn et(&self) -> Et { |s: u16, t: u16| if self.e_dom(s, t) { self@[s as int]@[t as int] } else { None } }
    open spec fn e_dom(&self, s: u16, t: u16) -> bool { s < self@.len() && t < self@[s as int]@.len() }
@@fn <VecDigraphFiltration as DigraphFiltration>::edge_time
@@inside <MapDigraphFiltration as DigraphFiltration>
    open spec fn et(&self) -> Et { |s: u16, t: u16| if self@.dom().contains((s, t)) { Some(self@[(s, t)]) } else { None } }
    open spec fn e_dom(&self, s: u16, t: u16) -> bool { true }
@@fn <MapDigraphFiltration as DigraphFiltration>::edge_time
@@inside <& as DigraphFiltration>
    open spec fn et(&self) -> Et { (**self).et() }
    open spec fn e_dom(&self, s: u16, t: u16) -> bool { (**self).e_dom(s, t) }
@@fn <& as DigraphFiltration>::edge_time
@@fn two_path_time
@ret r
@spec
    requires filtration.e_dom(*a, *b), filtration.e_dom(*b, *c),
    ensures r == two(filtration.et(), *a, *b, *c),
@start
    proof { axiom_notnan_lawful::<NotNan<f64>>(); lawful_cmp::<NotNan<f64>>(); }


## ---------------------------------------------------------------- cells of a two-path
@@fn two_path_to_two_cell_in_filtration
@ret r
@spec
    requires
        filtration.e_dom(a, b), filtration.e_dom(b, c), filtration.e_dom(a, c),
        a != c && two(filtration.et(), a, b, c) is Some && before(two(filtration.et(), a, b, c)->0, filtration.et()(a, c)) ==> bridge_map@.dom().contains((a, c)),
    ensures r == tp_cell(filtration.et(), bridge_map@[(a, c)], a, b, c),
@start
    proof { time_lawful(); }

@@fn produce_long_squares_with_primary_bridge
@ret r
@spec
    requires a < n_vertices, b < n_vertices, c < n_vertices, dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices),
    ensures exactly(r@, lsq(filtration.et(), n_vertices, a, b, c), lsq_time(filtration.et())),
@start
    let ghost e = filtration.et();
    let ghost g = lsq_at(e, n_vertices, a, b, c);
    proof {
        time_lawful();
        sieve_range(n_vertices, on(g)); sieve_filter(n_vertices, on(g));
        somes_exactly::<PathHom2Cell>(n_vertices, g, |x: PathHom2Cell| third(x), lsq(e, n_vertices, a, b, c), lsq_time(e));
    }
@closureparam 0 vpa0_0: &u16
@closure 0 r: bool
    ensures r == (*vpa0_0 != a)
@closureparam 1 vpa1_0: &u16
@closure 1 r: bool
    ensures r == (*vpa1_0 != b)
@closureparam 2 vpa2_0: &u16
@closure 2 r: bool
    ensures r == (*vpa2_0 != c)
@closureparam 3 i: u16
@closure 3 r: Option<(PathHom2Cell, NotNan<f64>)>
    requires i < n_vertices, a < n_vertices, c < n_vertices, dom_ok(filtration, n_vertices), e_ok(e, n_vertices), e == filtration.et(), ac_time == (match e(a, c) { Some(u) => u, None => nn(f64_inf()) })
    ensures i != b ==> r == lsq_at(e, n_vertices, a, b, c)(i)
@closurestart 3
    proof { time_lawful(); }

@@fn two_path_to_all_two_cells_in_filtration
@ret r
@spec
    requires
        is_ring::<CF>(), a < n_vertices, b < n_vertices, c < n_vertices,
        dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices), bm_ok(bridge_map@, filtration.et(), n_vertices),
    ensures tot(r@, pcf::<CF>(filtration.et(), n_vertices, a, b, c), okf(filtration.et(), n_vertices)),
@start
    let ghost e = filtration.et();
    let ghost n = n_vertices;
    proof {
        time_lawful(); ring_exec::<CF>(); tot_append::<CF, PathHom2Cell>(okf(e, n)); tot_small::<CF, PathHom2Cell>(okf(e, n));
        path_sum::<CF>(e, n, bridge_map@, a, b, c); flat_small::<(PathHom2Cell, NotNan<f64>)>();
    }
@closureparam 0 vpa0_0: (PathHom2Cell, NotNan<f64>)
@closure 0 r: (CF, PathHom2Cell, NotNan<f64>)
    ensures r == (CF::one_spec(), vpa0_0.0, vpa0_0.1)
@closure 1 r: It<(PathHom2Cell, NotNan<f64>)>
    requires a < n_vertices, b < n_vertices, c < n_vertices, dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices)
    ensures exactly(r@, lsq(filtration.et(), n_vertices, a, b, c), lsq_time(filtration.et()))
@closureparam 2 vpa2_0: (PathHom2Cell, NotNan<f64>)
@closure 2 r: (CF, PathHom2Cell, NotNan<f64>)
    requires is_ring::<CF>()
    ensures r == (CF::one_spec().neg_spec(), vpa2_0.0, vpa2_0.1)
@closurestart 2
    proof { ring_exec::<CF>(); }

@@fn produce_triangle_base_coboundary
@ret r
@spec
    requires
        is_ring::<CF>(), s < n_vertices, t < n_vertices,
        dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices), bm_ok(bridge_map@, filtration.et(), n_vertices),
    ensures
        r is None <==> filtration.et()(s, t) is None,
        r is Some ==> tot((r->0)@, tri::<CF>(filtration.et(), n_vertices, s, t), okf(filtration.et(), n_vertices)),
@start
    let ghost e = filtration.et();
    let ghost n = n_vertices;
    let ghost g = tri_at::<CF>(e, s, t);
    proof {
        time_lawful(); ring_exec::<CF>();
        if e(s, t) is Some {
            sieve_range(n, on(g)); sieve_filter(n, on(g));
            tri_sum::<CF>(e, n, bridge_map@, s, t);
        }
    }
@closureparam 0 pb: &u16
@closure 0 r: (CF, PathHom2Cell, NotNan<f64>)
    requires is_ring::<CF>()
    ensures r == (CF::one_spec().neg_spec(), PathHom2Cell::DirectedTriangle(s, *pb, t), st_time)
@closurestart 0
    proof { ring_exec::<CF>(); }
@closureparam 1 vpa1_0: &u16
@closure 1 r: bool
    ensures r == (*vpa1_0 != s)
@closureparam 2 vpa2_0: &u16
@closure 2 r: bool
    ensures r == (*vpa2_0 != t)
@closureparam 3 b: u16
@closure 3 r: Option<(CF, PathHom2Cell, NotNan<f64>)>
    requires is_ring::<CF>(), b < n_vertices, s < n_vertices, t < n_vertices, dom_ok(filtration, n_vertices), e == filtration.et(), e(s, t) == Some(st_time)
    ensures r == tri_at::<CF>(e, s, t)(b)
@closurestart 3
    proof { time_lawful(); ring_exec::<CF>(); }

@@fn produce_edge_total_coboundary
@ret r
@spec
    requires
        is_ring::<CF>(), s < n_vertices, t < n_vertices,
        dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices), bm_ok(bridge_map@, filtration.et(), n_vertices),
    ensures tot(r@, ecf::<CF>(filtration.et(), n_vertices, s, t), okf(filtration.et(), n_vertices)),
@start
    let ghost e = filtration.et();
    let ghost n = n_vertices;
    proof {
        sieve_range(n, not(s)); sieve_filter(n, not(s));
        sieve_range(n, not(t)); sieve_filter(n, not(t));
        flat_small::<(CF, PathHom2Cell, NotNan<f64>)>();
        edge_sum::<CF>(e, n, s, t);
    }
@closureparam 0 vpa0_0: &u16
@closure 0 r: bool
    ensures r == (*vpa0_0 != s)
@closureparam 1 i: u16
@closure 1 r: It<(CF, PathHom2Cell, NotNan<f64>)>
    requires is_ring::<CF>(), i < n_vertices, s < n_vertices, t < n_vertices, dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices), bm_ok(bridge_map@, filtration.et(), n_vertices)
    ensures tot(r@, pcf::<CF>(filtration.et(), n_vertices, i, s, t), okf(filtration.et(), n_vertices))
@closureparam 2 vpa2_0: &u16
@closure 2 r: bool
    ensures r == (*vpa2_0 != t)
@closureparam 3 i: u16
@closure 3 r: It<(CF, PathHom2Cell, NotNan<f64>)>
    requires is_ring::<CF>(), i < n_vertices, s < n_vertices, t < n_vertices, dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices), bm_ok(bridge_map@, filtration.et(), n_vertices)
    ensures tot(r@, pcf::<CF>(filtration.et(), n_vertices, s, t, i), okf(filtration.et(), n_vertices))

@@fn produce_node_total_coboundary
@ret r
@spec
    requires is_ring::<CF>(), s < n_vertices, dom_ok(filtration, n_vertices),
    ensures tot(r@, ncf::<CF>(filtration.et(), edge_set@, n_vertices, s), okn(filtration.et(), edge_set@, n_vertices)),
@start
    let ghost e = filtration.et();
    let ghost es = edge_set@;
    let ghost n = n_vertices;
    proof {
        time_lawful(); ring_exec::<CF>();
        sieve_full(n, on(out_at::<CF>(e, es, s))); sieve_full(n, on(in_at::<CF>(e, es, s)));
        node_sum::<CF>(e, es, n, s);
    }
@closureparam 0 j: u16
@closure 0 r: Option<(CF, PathHomCell, NotNan<f64>)>
    requires is_ring::<CF>(), j < n_vertices, s < n_vertices, dom_ok(filtration, n_vertices)
    ensures r == out_at::<CF>(filtration.et(), edge_set@, s)(j)
@closurestart 0
    proof { ring_exec::<CF>(); }
@closureparam 1 j: u16
@closure 1 r: Option<(CF, PathHomCell, NotNan<f64>)>
    requires is_ring::<CF>(), j < n_vertices, s < n_vertices, dom_ok(filtration, n_vertices)
    ensures r == in_at::<CF>(filtration.et(), edge_set@, s)(j)
@closurestart 1
    proof { ring_exec::<CF>(); }

## ---------------------------------------------------------------- bridges
@@fn build_primary_bridge_map
@ret r
@spec
    requires dom_ok(filtration, n_vertices),
    ensures bm_ok(r@, filtration.et(), n_vertices),
@start
    let ghost e = filtration.et();
    let ghost n = n_vertices;
    proof { time_lawful(); reveal(bm_upto); }
@end
    proof { bm_done(vp_ret@, e, n); }
@loop 0
    invariant
        e == filtration.et(), n == n_vertices, dom_ok(filtration, n_vertices),
        vpit0.seq().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] vpit0.seq()[i] == i,
        bm_upto(map@, e, n, vpit0.index@, 0),
@loopstart 0
    let ghost vs = vpit0.index@;
@loopend 0
    proof { bm_next(map@, e, n, vs); }
@loop 1
    invariant
        e == filtration.et(), n == n_vertices, dom_ok(filtration, n_vertices), 0 <= vs < n, s == vs,
        vpit1.seq().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] vpit1.seq()[i] == i,
        bm_upto(map@, e, n, vs, vpit1.index@),
@loopstart 1
    proof { time_lawful(); sieve_full(n, on(bridge_at(e, s, t))); best_of_list(e, n, s, t); bm_step(map@, e, n, s, t); }
@closureparam 0 i: u16
@closure 0 r: Option<(NotNan<f64>, u16)>
    requires i < n_vertices, s < n_vertices, t < n_vertices, dom_ok(filtration, n_vertices)
    ensures r == bridge_at(filtration.et(), s, t)(i)

## ---------------------------------------------------------------- column basis
@@fn build_basis
@ret r
@spec
    requires dom_ok(filtration, n_vertices),
    ensures cells_ok(r, filtration.et(), edge_set@, n_vertices),
@start
    let ghost e = filtration.et();
    let ghost es = edge_set@;
    let ghost n = n_vertices;
    proof { time_lawful(); cell_lawful(); lawful_cmp::<PathHomCell>(); axiom_set_order(*edge_set); nodes_listed(n); edges_listed(*edge_set, e, n); }
@closureparam 0 i: u16
@closure 0 r: (NotNan<f64>, PathHomCell)
    ensures r == (nn(f64_zero()), PathHomCell::Node(i))
@closureparam 1 vpa1_0: &(u16, u16)
@closure 1 r: (NotNan<f64>, PathHomCell)
    ensures r == (nn(f64_zero()), PathHomCell::Edge(vpa1_0.0, vpa1_0.1))
@loop 0
    invariant
        e == filtration.et(), n == n_vertices, es == edge_set@, dom_ok(filtration, n_vertices),
        vpit0.seq().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] vpit0.seq()[i] == i,
        lists(degree_1@, w1_upto(e, es, n, vpit0.index@, 0)),
@loopstart 0
    let ghost vs = vpit0.index@;
@loopend 0
    proof { w1_next(degree_1@, e, es, n, vs); }
@loop 1
    invariant
        e == filtration.et(), n == n_vertices, es == edge_set@, dom_ok(filtration, n_vertices), 0 <= vs < n, i == vs,
        vpit1.seq().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] vpit1.seq()[i] == i,
        lists(degree_1@, w1_upto(e, es, n, vs, vpit1.index@)),
@loopstart 1
    proof { w1_step(degree_1@, e, es, n, i, j); }
@before sort_unstable#0
    proof { lists_sorted(degree_0@, want0(n)); w1_done(degree_1@, e, es, n); lists_sorted(degree_1@, want1(e, es, n)); }
@end
    proof { listed(vp_ret.0@[0].0@, want0(n)); listed(vp_ret.0@[1].0@, want1(e, es, n)); }

@@inside <PathHomSingleBasis as ColBasis>
    open spec fn b_seq(&self) -> Seq<PathHomCell> { self.0@.map_values(|e: (NotNan<f64>, PathHomCell)| e.1) }
@@fn <PathHomSingleBasis as ColBasis>::element
@@fn <PathHomSingleBasis as ColBasis>::size
@@inside <PathHomMultiBasis as ColBasis>
    open spec fn b_seq(&self) -> Seq<PathHomCell> { flat(ph_bases(self.0@)) }
@@fn <PathHomMultiBasis as ColBasis>::element
@start
    let ghost bs = ph_bases(self.0@);
    proof { assert(self.0@.len() == self.0.len()); assert(bs.take(0) =~= Seq::empty()); if bs.len() == 0 { assert(flat(bs).len() == 0); } }
@loop 0
    invariant
        dim < self.0@.len() <= usize::MAX, bs == ph_bases(self.0@),
        index < flat(bs).len(),
        index == flat(bs.take(dim as int)).len() + working,
    decreases self.0@.len() - dim,
@loopstart 0
    proof {
        flat_at(bs, dim as int);
        if dim + 1 == bs.len() { assert(bs.take(dim + 1) =~= bs); }
    }
@after loop#0
    proof { flat_at(bs, dim as int); }
@@fn <PathHomMultiBasis as ColBasis>::size
@start
    proof { axiom_ph_basis_in_memory(*self); flat_total(ph_bases(self.0@)); }
@closure 0 r: usize
    ensures r == basis.b_seq().len()
@@inside <PathHomMultiBasis as SplitByDimension>
    open spec fn b_dims(&self) -> nat { self.0@.len() }
    open spec fn b_sub(&self, d: int) -> PathHomSingleBasis { self.0@[d] }
@@fn <PathHomMultiBasis as SplitByDimension>::in_dimension

## ---------------------------------------------------------------- the matrix
@@fn GrPPHCoboundary::build
@ret r
@spec
    requires is_ring::<CF>(), dom_ok(filtration, n_vertices), e_ok(filtration.et(), n_vertices),
    ensures
        r.matrix.m_wf(), r.matrix.filtration == filtration, r.matrix.edge_set == edge_set, r.matrix.n_vertices == n_vertices,
        cells_ok(r.basis, filtration.et(), edge_set@, n_vertices),

@@inside <GrPPHCoboundary as MatrixOracle>
    open spec fn m_wf(&self) -> bool { is_ring::<CF>() && dom_ok(self.filtration, self.n_vertices) && e_ok(self.filtration.et(), self.n_vertices) && bm_ok(self.bridge_map@, self.filtration.et(), self.n_vertices) }
    open spec fn m_dom(&self, col: PathHomCell) -> bool { match col { PathHomCell::Node(s) => s < self.n_vertices, PathHomCell::Edge(s, t) => s < self.n_vertices && t < self.n_vertices, PathHomCell::TwoCell(_) => false } }
    /// the column whose entry in every row of the filtration is what the boundary of that row has in `col`
    open spec fn m_col(&self, col: PathHomCell) -> Seq<(CF, PathHomCell)> { choose|s: Seq<(CF, PathHomCell)>| #[trigger] is_transposed(s, self.filtration.et(), self.edge_set@, self.n_vertices, col) }
    open spec fn m_row(&self, row: PathHomCell) -> bool { row_ok(self.filtration, self.edge_set@, row) }
    open spec fn m_at(&self, col: PathHomCell, row: PathHomCell) -> bool { in_filt(self.filtration.et(), self.n_vertices, self.edge_set@, row) && degree(row) == degree(col) + 1 }
    proof fn m_ring(&self) {}
@@fn <GrPPHCoboundary as MatrixOracle>::column
@ret r
@spec
    ensures is_transposed(r@, self.filtration.et(), self.edge_set@, self.n_vertices, col), is_transposed(self.m_col(col), self.filtration.et(), self.edge_set@, self.n_vertices, col),
@start
    let ghost e = self.filtration.et();
    let ghost es = self.edge_set@;
    let ghost n = self.n_vertices;
    proof { col_rows::<CF, F>(self.filtration, es, n, col); }
@closureparam 0 vpa0_0: (CF, PathHomCell, NotNan<f64>)
@closure 0 r: (CF, PathHomCell)
    ensures r == (vpa0_0.0, vpa0_0.1)
@closureparam 1 vpa1_0: (CF, PathHom2Cell, NotNan<f64>)
@closure 1 r: (CF, PathHomCell)
    ensures r == (vpa1_0.0, PathHomCell::TwoCell(vpa1_0.1))
@end
    proof { assert(is_transposed(vp_ret@, e, es, n, col)); }

@@fn <IterEnum as Iterator>::next
@ret r
@spec
    ensures
        enum_items(*old(self)).len() == 0 ==> r is None && enum_items(*final(self)) == enum_items(*old(self)),
        enum_items(*old(self)).len() > 0 ==> r == Some(enum_items(*old(self))[0]) && enum_items(*final(self)) == enum_items(*old(self)).drop_first(),
@@fn <IterEnum as Iterator>::vp_drain
@ret r
@spec
    ensures r@ == enum_items(self),
@loop 0
    invariant vp_out@ + enum_items(vp_self) =~= enum_items(self),
    ensures vp_out@ =~= enum_items(self),
    decreases enum_items(vp_self).len(),

@@inside <GrPPHCoboundary as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { true }
    open spec fn f_val(&self, row: PathHomCell) -> NotNan<f64> { ftime(self.filtration.et(), self.edge_set@, row) }
@@fn <GrPPHCoboundary as HasRowFiltration>::filtration_value
@start
    proof { time_lawful(); }
@@fn <GrPPHCoboundary as HasRowFiltration>::column_with_filtration
@start
    let ghost e = self.filtration.et();
    let ghost es = self.edge_set@;
    let ghost n = self.n_vertices;
    proof { col_rows::<CF, F>(self.filtration, es, n, col); }
@closureparam 0 vpa0_0: (CF, PathHomCell, NotNan<f64>)
@closure 0 r: ColumnEntry<NotNan<f64>, PathHomCell, CF>
    ensures r == (ColumnEntry { filtration_value: vpa0_0.2, row_index: vpa0_0.1, coeff: vpa0_0.0 })
@closureparam 1 vpa1_0: (CF, PathHom2Cell, NotNan<f64>)
@closure 1 r: ColumnEntry<NotNan<f64>, PathHomCell, CF>
    ensures r == (ColumnEntry { filtration_value: vpa1_0.2, row_index: PathHomCell::TwoCell(vpa1_0.1), coeff: vpa1_0.0 })
@end
    proof { assert(is_transposed(pairs(vp_ret@), e, es, n, col)); assert(is_transposed(self.m_col(col), e, es, n, col)); }

@@append
pub open spec fn dom_ok<F: DigraphFiltration>(f: F, n: u16) -> bool { forall|s: u16, t: u16| s < n && t < n ==> #[trigger] f.e_dom(s, t) }

// derived traits of the cells (variants in order of declaration, fields lexicographically)
pub open spec fn key2(x: PathHom2Cell) -> int {
    match x {
        PathHom2Cell::DoubleEdge(a, b) => lex5(2, a as int, b as int, 0, 0),
        PathHom2Cell::DirectedTriangle(a, b, c) => lex5(3, a as int, b as int, c as int, 0),
        PathHom2Cell::LongSquare(a, b, c, d) => lex5(4, a as int, b as int, c as int, d as int),
    }
}
pub open spec fn key(x: PathHomCell) -> int {
    match x {
        PathHomCell::Node(a) => lex5(0, a as int, 0, 0, 0),
        PathHomCell::Edge(a, b) => lex5(1, a as int, b as int, 0, 0),
        PathHomCell::TwoCell(x) => key2(x),
    }
}
pub proof fn key_inj(x: PathHomCell, y: PathHomCell)
    requires key(x) == key(y),
    ensures x == y,
{
}
impl PartialEqSpecImpl for PathHomCell {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for PathHomCell { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for PathHomCell {}
impl PartialOrdSpecImpl for PathHomCell {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(icmp(key(*self), key(*o))) }
}
impl PartialOrd for PathHomCell { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for PathHomCell {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { icmp(key(*self), key(*o)) }
}
impl Ord for PathHomCell { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
impl Clone for PathHom2Cell { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Copy for PathHom2Cell {}
impl Clone for PathHomCell { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Copy for PathHomCell {}
pub proof fn cell_lawful()
    ensures lawful::<PathHomCell>(),
{
    reveal(lawful);
    assert forall|a: PathHomCell, b: PathHomCell| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == Ordering::Equal <==> a == b by { if key(a) == key(b) { key_inj(a, b); } }
}

pub open spec fn enum_items<T, I1: VNext<T>, I2: VNext<T>>(x: IterEnum<I1, I2>) -> Seq<T> { match x { IterEnum::A(i) => i.items(), IterEnum::B(i) => i.items() } }
/// a basis that exists in memory has fewer entries than there are addresses
pub axiom fn axiom_ph_basis_in_memory(b: PathHomMultiBasis)
    ensures flat(ph_bases(b.0@)).len() <= usize::MAX;
pub open spec fn ph_bases(s: Seq<PathHomSingleBasis>) -> Seq<Seq<PathHomCell>> { s.map_values(|b: PathHomSingleBasis| b.b_seq()) }
/// what the basis lists in degree 0 and 1
pub open spec fn want0(n: u16) -> spec_fn((Time, PathHomCell)) -> bool { |x: (Time, PathHomCell)| match x.1 { PathHomCell::Node(a) => a < n && x.0 == nn(f64_zero()), _ => false } }
pub open spec fn want1(e: Et, es: Set<(u16, u16)>, n: u16) -> spec_fn((Time, PathHomCell)) -> bool {
    |x: (Time, PathHomCell)| match x.1 { PathHomCell::Edge(a, b) => if es.contains((a, b)) { x.0 == nn(f64_zero()) } else { a < n && b < n && e(a, b) == Some(x.0) }, _ => false }
}
/// each wanted entry once, in order of time and then cell
pub open spec fn listing(s: Seq<(Time, PathHomCell)>, want: spec_fn((Time, PathHomCell)) -> bool) -> bool {
    s.no_duplicates() && sorted2(s) && forall|x: (Time, PathHomCell)| s.contains(x) <==> #[trigger] want(x)
}
pub open spec fn cells_ok(b: PathHomMultiBasis, e: Et, es: Set<(u16, u16)>, n: u16) -> bool {
    b.0@.len() == 2 && listing(b.0@[0].0@, want0(n)) && listing(b.0@[1].0@, want1(e, es, n))
}

// ---------------------------------------------------------------- the complex
pub open spec fn first(x: PathHom2Cell) -> u16 { match x { PathHom2Cell::DoubleEdge(a, _) => a, PathHom2Cell::DirectedTriangle(a, _, _) => a, PathHom2Cell::LongSquare(a, _, _, _) => a } }
pub open spec fn last2(x: PathHom2Cell) -> u16 { match x { PathHom2Cell::DoubleEdge(a, _) => a, PathHom2Cell::DirectedTriangle(_, _, c) => c, PathHom2Cell::LongSquare(_, _, _, d) => d } }
pub open spec fn third(x: PathHom2Cell) -> u16 { match x { PathHom2Cell::LongSquare(_, _, c, _) => c, _ => 0 } }
pub open spec fn second(x: PathHom2Cell) -> u16 { match x { PathHom2Cell::DirectedTriangle(_, b, _) => b, _ => 0 } }
/// the 2-cells of the filtration
pub open spec fn is_cell2(e: Et, n: u16, x: PathHom2Cell) -> bool {
    match x {
        PathHom2Cell::DoubleEdge(a, b) => a < n && b < n && two(e, a, b, a) is Some,
        PathHom2Cell::DirectedTriangle(a, b, c) => a < n && b < n && c < n && a != c && two(e, a, b, c) is Some && e(a, c) is Some && (!before(two(e, a, b, c)->0, e(a, c)) || is_bridge(e, n, a, c, b)),
        PathHom2Cell::LongSquare(a, b, c, d) => a < n && b < n && c < n && d < n && a != d && b != c && is_bridge(e, n, a, d, b) && two(e, a, c, d) is Some && before(two(e, a, c, d)->0, e(a, d)),
    }
}
/// when all paths of a 2-cell are allowed
pub open spec fn ctime2(e: Et, x: PathHom2Cell) -> Time {
    match x {
        PathHom2Cell::DoubleEdge(a, b) => two(e, a, b, a)->0,
        PathHom2Cell::DirectedTriangle(a, b, c) => vmax(two(e, a, b, c)->0, e(a, c)->0),
        PathHom2Cell::LongSquare(a, b, c, d) => vmax(two(e, a, b, d)->0, two(e, a, c, d)->0),
    }
}
/// when a cell appears
pub open spec fn ftime(e: Et, es: Set<(u16, u16)>, x: PathHomCell) -> Time {
    match x {
        PathHomCell::Node(_) => nn(f64_zero()),
        PathHomCell::Edge(a, b) => if es.contains((a, b)) { nn(f64_zero()) } else { e(a, b)->0 },
        PathHomCell::TwoCell(x) => ctime2(e, x),
    }
}
/// cells whose time is defined
pub open spec fn row_ok<F: DigraphFiltration>(f: F, es: Set<(u16, u16)>, x: PathHomCell) -> bool {
    match x {
        PathHomCell::Node(_) => true,
        PathHomCell::Edge(a, b) => es.contains((a, b)) || (f.e_dom(a, b) && f.et()(a, b) is Some),
        PathHomCell::TwoCell(x) => match x {
            PathHom2Cell::DoubleEdge(a, b) => f.e_dom(a, b) && f.e_dom(b, a) && two(f.et(), a, b, a) is Some,
            PathHom2Cell::DirectedTriangle(a, b, c) => f.e_dom(a, b) && f.e_dom(b, c) && f.e_dom(a, c) && two(f.et(), a, b, c) is Some && f.et()(a, c) is Some,
            PathHom2Cell::LongSquare(a, b, c, d) => f.e_dom(a, b) && f.e_dom(b, d) && f.e_dom(a, c) && f.e_dom(c, d) && two(f.et(), a, b, d) is Some && two(f.et(), a, c, d) is Some,
        },
    }
}
pub open spec fn in_filt(e: Et, n: u16, es: Set<(u16, u16)>, x: PathHomCell) -> bool {
    match x {
        PathHomCell::Node(a) => a < n,
        PathHomCell::Edge(a, b) => a < n && b < n && (es.contains((a, b)) || e(a, b) is Some),
        PathHomCell::TwoCell(x) => is_cell2(e, n, x),
    }
}
pub open spec fn po<C: NonZeroCoefficient>() -> C { C::one_spec() }
pub open spec fn ne<C: NonZeroCoefficient>() -> C { C::one_spec().neg_spec() }
/// the boundary of a cell
pub open spec fn bd<C: NonZeroCoefficient>(x: PathHomCell) -> Seq<(C, PathHomCell)> {
    let z = Seq::<(C, PathHomCell)>::empty();
    match x {
        PathHomCell::Node(_) => z,
        PathHomCell::Edge(s, t) => z.push((po(), PathHomCell::Node(t))).push((ne(), PathHomCell::Node(s))),
        PathHomCell::TwoCell(x) => match x {
            PathHom2Cell::DoubleEdge(a, b) => z.push((po(), PathHomCell::Edge(a, b))).push((po(), PathHomCell::Edge(b, a))),
            PathHom2Cell::DirectedTriangle(a, b, c) => z.push((po(), PathHomCell::Edge(b, c))).push((ne(), PathHomCell::Edge(a, c))).push((po(), PathHomCell::Edge(a, b))),
            PathHom2Cell::LongSquare(a, b, c, d) => z.push((po(), PathHomCell::Edge(c, d))).push((po(), PathHomCell::Edge(a, c))).push((ne(), PathHomCell::Edge(b, d))).push((ne(), PathHomCell::Edge(a, b))),
        },
    }
}
/// the coefficient that the boundary of `row` has in `col`, for rows of the filtration
pub open spec fn tr_coef<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, col: PathHomCell, row: PathHomCell) -> Option<C> { if in_filt(e, n, es, row) { coef(bd::<C>(row), col) } else { None } }
pub open spec fn is_transposed<C: NonZeroCoefficient>(s: Seq<(C, PathHomCell)>, e: Et, es: Set<(u16, u16)>, n: u16, col: PathHomCell) -> bool { forall|row: PathHomCell| (#[trigger] coef(s, row)) == tr_coef::<C>(e, es, n, col, row) }
/// the coefficient of the path a -> b -> c in a 2-cell
pub open spec fn pc<C: NonZeroCoefficient>(a: u16, b: u16, c: u16, x: PathHom2Cell) -> Option<C> {
    match x {
        PathHom2Cell::DoubleEdge(p, q) => if a == p && b == q && c == p { Some(po()) } else { None },
        PathHom2Cell::DirectedTriangle(p, q, r) => if a == p && b == q && c == r { Some(po()) } else { None },
        PathHom2Cell::LongSquare(p, q, r, s) => if a == p && c == s { if b == r { Some(po()) } else if b == q { Some(ne()) } else { None } } else { None },
    }
}
pub open spec fn path_coef<C: NonZeroCoefficient>(e: Et, n: u16, a: u16, b: u16, c: u16, x: PathHom2Cell) -> Option<C> { if is_cell2(e, n, x) { pc(a, b, c, x) } else { None } }
pub open spec fn pcf<C: NonZeroCoefficient>(e: Et, n: u16, a: u16, b: u16, c: u16) -> spec_fn(PathHom2Cell) -> Option<C> { |x: PathHom2Cell| path_coef(e, n, a, b, c, x) }
pub open spec fn tri<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16) -> spec_fn(PathHom2Cell) -> Option<C> { |x: PathHom2Cell| match x { PathHom2Cell::DirectedTriangle(a, _, c) => if a == s && c == t && is_cell2(e, n, x) { Some(ne()) } else { None }, _ => None } }
pub open spec fn ecf<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16) -> spec_fn(PathHom2Cell) -> Option<C> { |x: PathHom2Cell| tr_coef(e, Set::empty(), n, PathHomCell::Edge(s, t), PathHomCell::TwoCell(x)) }
pub open spec fn ncf<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, s: u16) -> spec_fn(PathHomCell) -> Option<C> { |x: PathHomCell| tr_coef(e, es, n, PathHomCell::Node(s), x) }
pub open spec fn okf(e: Et, n: u16) -> spec_fn(PathHom2Cell, Time) -> bool { |x: PathHom2Cell, t: Time| is_cell2(e, n, x) && t == ctime2(e, x) }
pub open spec fn okn(e: Et, es: Set<(u16, u16)>, n: u16) -> spec_fn(PathHomCell, Time) -> bool { |x: PathHomCell, t: Time| match x { PathHomCell::Edge(_, _) => in_filt(e, n, es, x) && t == ftime(e, es, x), _ => false } }
/// the 2-cell of a two-path, given the bridge of its ends
pub open spec fn tp_cell(e: Et, pb: u16, a: u16, b: u16, c: u16) -> (Option<(PathHom2Cell, Time)>, bool) {
    match two(e, a, b, c) {
        None => (None, false),
        Some(t) => if a == c { (Some((PathHom2Cell::DoubleEdge(a, b), t)), false) }
            else if !before(t, e(a, c)) { (Some((PathHom2Cell::DirectedTriangle(a, b, c), t)), false) }
            else if b == pb { (match e(a, c) { Some(u) => Some((PathHom2Cell::DirectedTriangle(a, b, c), u)), None => None }, true) }
            else { (Some((PathHom2Cell::LongSquare(a, pb, b, c), t)), false) },
    }
}
/// the long squares over the bridge a -> b -> c
pub open spec fn lsq_at(e: Et, n: u16, a: u16, b: u16, c: u16) -> spec_fn(u16) -> Option<(PathHom2Cell, Time)> {
    |i: u16| if i != b { match two(e, a, i, c) { Some(t) => if before(t, e(a, c)) { Some((PathHom2Cell::LongSquare(a, b, i, c), t)) } else { None }, None => None } } else { None }
}
pub open spec fn lsq(e: Et, n: u16, a: u16, b: u16, c: u16) -> spec_fn(PathHom2Cell) -> bool {
    |x: PathHom2Cell| match x { PathHom2Cell::LongSquare(p, q, i, d) => p == a && q == b && d == c && i < n && i != b && two(e, a, i, c) is Some && before(two(e, a, i, c)->0, e(a, c)), _ => false }
}
pub open spec fn lsq_time(e: Et) -> spec_fn(PathHom2Cell) -> Time { |x: PathHom2Cell| match x { PathHom2Cell::LongSquare(a, _, i, d) => two(e, a, i, d)->0, _ => nn(f64_zero()) } }

/// the cells listed for a two-path are all those the path is part of
pub proof fn path_cells<C: NonZeroCoefficient>(e: Et, n: u16, m: Map<(u16, u16), u16>, a: u16, b: u16, c: u16)
    requires e_ok(e, n), bm_ok(m, e, n), a < n, b < n, c < n,
    ensures ({
        let t = tp_cell(e, m[(a, c)], a, b, c);
        &&& t.0 is Some ==> okf(e, n)((t.0->0).0, (t.0->0).1) && pc::<C>(a, b, c, (t.0->0).0) == Some(po::<C>())
        &&& t.1 ==> forall|x: PathHom2Cell| #[trigger] lsq(e, n, a, b, c)(x) ==> okf(e, n)(x, lsq_time(e)(x)) && pc::<C>(a, b, c, x) == Some(ne::<C>())
        &&& forall|x: PathHom2Cell| (#[trigger] path_coef::<C>(e, n, a, b, c, x)) is Some ==> (t.0 is Some && x == (t.0->0).0) || (t.1 && lsq(e, n, a, b, c)(x))
    }),
{
    time_lawful();
    let t = tp_cell(e, m[(a, c)], a, b, c);
    let d = m[(a, c)];
    if two(e, a, b, c) is Some && before(two(e, a, b, c)->0, e(a, c)) {
        assert(m.dom().contains((a, c)));
        assert(is_bridge(e, n, a, c, d));
        if is_bridge(e, n, a, c, b) { bridge_unique(e, n, a, c, b, d); }
    }
    assert forall|x: PathHom2Cell| (#[trigger] path_coef::<C>(e, n, a, b, c, x)) is Some implies (t.0 is Some && x == (t.0->0).0) || (t.1 && lsq(e, n, a, b, c)(x)) by {
        match x {
            PathHom2Cell::LongSquare(p, q, r, s) => {
                assert(before(two(e, p, q, s)->0, e(p, s)));
                assert(m.dom().contains((p, s)));
                bridge_unique(e, n, p, s, q, m[(p, s)]);
            }
            PathHom2Cell::DirectedTriangle(p, q, r) => {}
            PathHom2Cell::DoubleEdge(p, q) => {}
        }
    }
}

pub open spec fn opt_part<C: NonZeroCoefficient>(p: Seq<(C, PathHom2Cell, Time)>, o: Option<(PathHom2Cell, Time)>) -> bool {
    match o { Some(t) => p.len() == 1 && p[0] == (po::<C>(), t.0, t.1), None => p.len() == 0 }
}
/// the two groups of cells of a two-path together
pub proof fn path_sum<C: NonZeroCoefficient>(e: Et, n: u16, m: Map<(u16, u16), u16>, a: u16, b: u16, c: u16)
    requires is_ring::<C>(), e_ok(e, n), bm_ok(m, e, n), a < n, b < n, c < n,
    ensures
        forall|p: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHom2Cell, Time)>| #![trigger p + q] opt_part(p, tp_cell(e, m[(a, c)], a, b, c).0) && !tp_cell(e, m[(a, c)], a, b, c).1 && q.len() == 0 ==> tot(p + q, pcf::<C>(e, n, a, b, c), okf(e, n)),
        forall|p: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHom2Cell, Time)>, s: Seq<(PathHom2Cell, Time)>| #![trigger p + q, exactly(s, lsq(e, n, a, b, c), lsq_time(e))]
            opt_part(p, tp_cell(e, m[(a, c)], a, b, c).0) && tp_cell(e, m[(a, c)], a, b, c).1 && exactly(s, lsq(e, n, a, b, c), lsq_time(e)) && with_coef(s, q, ne::<C>()) ==> tot(p + q, pcf::<C>(e, n, a, b, c), okf(e, n)),
{
    reveal(tot);
    let t = tp_cell(e, m[(a, c)], a, b, c);
    let ok = okf(e, n);
    let co = pcf::<C>(e, n, a, b, c);
    let w = lsq(e, n, a, b, c);
    let c1 = |x: PathHom2Cell| if t.0 is Some && (t.0->0).0 == x { Some(po::<C>()) } else { None };
    let c2 = |x: PathHom2Cell| if w(x) { Some(ne::<C>()) } else { None };
    path_cells::<C>(e, n, m, a, b, c);
    tot_append::<C, PathHom2Cell>(ok);
    tot_small::<C, PathHom2Cell>(ok);
    assert forall|p: Seq<(C, PathHom2Cell, Time)>| #[trigger] opt_part(p, t.0) implies tot(p, c1, ok) by {}
    assert forall|p: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHom2Cell, Time)>| #![trigger p + q] opt_part(p, t.0) && !t.1 && q.len() == 0 implies tot(p + q, co, ok) by {
        assert(p + q =~= p);
        assert forall|x: PathHom2Cell| (#[trigger] cc(p, x)) == co(x) by { assert(cc(p, x) == c1(x)); assert(path_coef::<C>(e, n, a, b, c, x) == co(x)); }
    }
    if t.1 { tot_exactly::<C, PathHom2Cell>(w, lsq_time(e), ne::<C>(), c2, ok); }
    assert forall|p: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHom2Cell, Time)>, s: Seq<(PathHom2Cell, Time)>| #![trigger p + q, exactly(s, w, lsq_time(e))] opt_part(p, t.0) && t.1 && exactly(s, w, lsq_time(e)) && with_coef(s, q, ne::<C>()) implies tot(p + q, co, ok) by {
        assert(tot(p, c1, ok) && tot(q, c2, ok));
        assert(tot(p + q, osum(c1, c2), ok));
        assert forall|x: PathHom2Cell| (#[trigger] cc(p + q, x)) == co(x) by {
            assert(cc(p + q, x) == osum(c1, c2)(x));
            assert(path_coef::<C>(e, n, a, b, c, x) == co(x));
            assert(w(x) || !w(x));
        }
    }
}

/// the triangles over an edge that do not come from its bridge
pub open spec fn tri_at<C: NonZeroCoefficient>(e: Et, s: u16, t: u16) -> spec_fn(u16) -> Option<(C, PathHom2Cell, Time)> {
    |b: u16| match two(e, s, b, t) { Some(w) => if before(w, e(s, t)) { None } else { Some((ne::<C>(), PathHom2Cell::DirectedTriangle(s, b, t), w)) }, None => None }
}
pub open spec fn tri_part<C: NonZeroCoefficient>(p: Seq<(C, PathHom2Cell, Time)>, e: Et, m: Map<(u16, u16), u16>, s: u16, t: u16) -> bool {
    if m.dom().contains((s, t)) { p.len() == 1 && p[0] == (ne::<C>(), PathHom2Cell::DirectedTriangle(s, m[(s, t)], t), e(s, t)->0) } else { p.len() == 0 }
}
pub open spec fn tri_conv<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16) -> spec_fn(PathHom2Cell) -> Option<C> {
    |x: PathHom2Cell| if second(x) < n { topt(tri_at::<C>(e, s, t)(second(x)), x) } else { None }
}
pub open spec fn tri_first<C: NonZeroCoefficient>(m: Map<(u16, u16), u16>, s: u16, t: u16) -> spec_fn(PathHom2Cell) -> Option<C> {
    |x: PathHom2Cell| if m.dom().contains((s, t)) && x == PathHom2Cell::DirectedTriangle(s, m[(s, t)], t) { Some(ne::<C>()) } else { None }
}
/// the collapsing triangle of a pair
pub proof fn tri_first_tot<C: NonZeroCoefficient>(p: Seq<(C, PathHom2Cell, Time)>, e: Et, n: u16, m: Map<(u16, u16), u16>, s: u16, t: u16)
    requires e_ok(e, n), bm_ok(m, e, n), s < n, t < n, e(s, t) is Some, tri_part(p, e, m, s, t),
    ensures tot(p, tri_first::<C>(m, s, t), okf(e, n)),
{
    reveal(tot);
    time_lawful();
    assert(e(s, s) is None);
    tot_small::<C, PathHom2Cell>(okf(e, n));
    let co = tri_first::<C>(m, s, t);
    assert forall|x: PathHom2Cell| (#[trigger] cc(p, x)) == co(x) by { }
    assert(all_ok(p, okf(e, n)));
}
/// a triangle over a pair is the collapsing one or follows the edge
pub proof fn tri_cases<C: NonZeroCoefficient>(e: Et, n: u16, m: Map<(u16, u16), u16>, s: u16, t: u16, x: PathHom2Cell)
    requires is_ring::<C>(), e_ok(e, n), bm_ok(m, e, n), s < n, t < n, e(s, t) is Some,
    ensures osum(tri_first::<C>(m, s, t), tri_conv::<C>(e, n, s, t))(x) == tri::<C>(e, n, s, t)(x),
{
    time_lawful();
    assert(e(s, s) is None);
    assert(s != t);
    if let PathHom2Cell::DirectedTriangle(a, b, c) = x {
        if a == s && c == t {
            if m.dom().contains((s, t)) && is_bridge(e, n, s, t, b) { bridge_unique(e, n, s, t, b, m[(s, t)]); }
            if b < n && two(e, s, b, t) is Some && before(two(e, s, b, t)->0, e(s, t)) { assert(m.dom().contains((s, t))); }
        }
    }
}
pub proof fn tri_join<C: NonZeroCoefficient>(p: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHom2Cell, Time)>, e: Et, n: u16, m: Map<(u16, u16), u16>, s: u16, t: u16)
    requires is_ring::<C>(), e_ok(e, n), bm_ok(m, e, n), s < n, t < n, e(s, t) is Some, tri_part(p, e, m, s, t), tot(q, tri_conv::<C>(e, n, s, t), okf(e, n)),
    ensures tot(p + q, tri::<C>(e, n, s, t), okf(e, n)),
{
    tri_first_tot::<C>(p, e, n, m, s, t);
    tot_append::<C, PathHom2Cell>(okf(e, n));
    let co = osum(tri_first::<C>(m, s, t), tri_conv::<C>(e, n, s, t));
    assert(tot(p + q, co, okf(e, n)));
    assert forall|x: PathHom2Cell| #[trigger] co(x) == tri::<C>(e, n, s, t)(x) by { tri_cases::<C>(e, n, m, s, t, x); }
    tot_cong::<C, PathHom2Cell>(p + q, co, tri::<C>(e, n, s, t), okf(e, n));
}
pub proof fn tot_cong<C: NonZeroCoefficient, X>(p: Seq<(C, X, Time)>, a: spec_fn(X) -> Option<C>, b: spec_fn(X) -> Option<C>, ok: spec_fn(X, Time) -> bool)
    requires tot(p, a, ok), forall|x: X| #[trigger] a(x) == b(x),
    ensures tot(p, b, ok),
{
    reveal(tot);
    assert forall|x: X| (#[trigger] cc(p, x)) == b(x) by { assert(cc(p, x) == a(x)); }
}
pub proof fn tri_after<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16)
    requires is_ring::<C>(), e_ok(e, n), s < n, t < n, e(s, t) is Some,
    ensures forall|i: Seq<u16>, res: Seq<Option<(C, PathHom2Cell, Time)>>| #![trigger sieve(i, n, on(tri_at::<C>(e, s, t))), somes(res)] sieve(i, n, on(tri_at::<C>(e, s, t))) && res_by(i, res, tri_at::<C>(e, s, t)) ==> tot(somes(res), tri_conv::<C>(e, n, s, t), okf(e, n)),
{
    time_lawful();
    assert(e(s, s) is None);
    assert(s != t);
    let at = |x: PathHom2Cell| second(x);
    tot_somes::<C, PathHom2Cell>(n, tri_at::<C>(e, s, t), at, tri_conv::<C>(e, n, s, t), okf(e, n));
}
pub proof fn tri_sum<C: NonZeroCoefficient>(e: Et, n: u16, m: Map<(u16, u16), u16>, s: u16, t: u16)
    requires is_ring::<C>(), e_ok(e, n), bm_ok(m, e, n), s < n, t < n, e(s, t) is Some,
    ensures
        forall|i: Seq<u16>, res: Seq<Option<(C, PathHom2Cell, Time)>>| #![trigger sieve(i, n, on(tri_at::<C>(e, s, t))), somes(res)] sieve(i, n, on(tri_at::<C>(e, s, t))) && res_by(i, res, tri_at::<C>(e, s, t)) ==> tot(somes(res), tri_conv::<C>(e, n, s, t), okf(e, n)),
        forall|p: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHom2Cell, Time)>| #![trigger p + q] tri_part(p, e, m, s, t) && tot(q, tri_conv::<C>(e, n, s, t), okf(e, n)) ==> tot(p + q, tri::<C>(e, n, s, t), okf(e, n)),
{
    tri_after::<C>(e, n, s, t);
    assert forall|p: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHom2Cell, Time)>| #![trigger p + q] tri_part(p, e, m, s, t) && tot(q, tri_conv::<C>(e, n, s, t), okf(e, n)) implies tot(p + q, tri::<C>(e, n, s, t), okf(e, n)) by {
        tri_join::<C>(p, q, e, n, m, s, t);
    }
}

pub open spec fn not(s: u16) -> spec_fn(u16) -> bool { |i: u16| i != s }
/// paths that end / begin with an edge
pub open spec fn pre<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16) -> spec_fn(u16) -> (spec_fn(PathHom2Cell) -> Option<C>) { |i: u16| pcf::<C>(e, n, i, s, t) }
pub open spec fn post<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16) -> spec_fn(u16) -> (spec_fn(PathHom2Cell) -> Option<C>) { |i: u16| pcf::<C>(e, n, s, t, i) }
pub open spec fn pre_co<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16) -> spec_fn(PathHom2Cell) -> Option<C> { |x: PathHom2Cell| if first(x) < n { path_coef(e, n, first(x), s, t, x) } else { None } }
pub open spec fn post_co<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16) -> spec_fn(PathHom2Cell) -> Option<C> { |x: PathHom2Cell| if last2(x) < n { path_coef(e, n, s, t, last2(x), x) } else { None } }
pub proof fn edge_sum<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16)
    requires is_ring::<C>(), e_ok(e, n), s < n, t < n,
    ensures
        forall|i: Seq<u16>, parts: Seq<Seq<(C, PathHom2Cell, Time)>>| #![trigger sieve(i, n, not(s)), flat(parts)] sieve(i, n, not(s)) && part_tots(i, parts, pre::<C>(e, n, s, t), okf(e, n)) ==> tot(flat(parts), pre_co::<C>(e, n, s, t), okf(e, n)),
        forall|i: Seq<u16>, parts: Seq<Seq<(C, PathHom2Cell, Time)>>| #![trigger sieve(i, n, not(t)), flat(parts)] sieve(i, n, not(t)) && part_tots(i, parts, post::<C>(e, n, s, t), okf(e, n)) ==> tot(flat(parts), post_co::<C>(e, n, s, t), okf(e, n)),
        e(s, t) is None ==> tot(Seq::empty(), tri::<C>(e, n, s, t), okf(e, n)),
        forall|p1: Seq<(C, PathHom2Cell, Time)>, p2: Seq<(C, PathHom2Cell, Time)>, p3: Seq<(C, PathHom2Cell, Time)>| #![trigger p1 + p2 + p3] edge_tots(p1, p2, p3, e, n, s, t) ==> tot(p1 + p2 + p3, ecf::<C>(e, n, s, t), okf(e, n)),
{
    reveal(tot);
    let ok = okf(e, n);
    assert(e(s, s) is None && e(t, t) is None);
    tot_small::<C, PathHom2Cell>(ok);
    tot_flat::<C, PathHom2Cell>(n, not(s), pre::<C>(e, n, s, t), |x: PathHom2Cell| first(x), pre_co::<C>(e, n, s, t), ok);
    tot_flat::<C, PathHom2Cell>(n, not(t), post::<C>(e, n, s, t), |x: PathHom2Cell| last2(x), post_co::<C>(e, n, s, t), ok);
    let co = osum(osum(pre_co::<C>(e, n, s, t), tri::<C>(e, n, s, t)), post_co::<C>(e, n, s, t));
    assert forall|x: PathHom2Cell| #[trigger] co(x) == ecf::<C>(e, n, s, t)(x) by { edge_coef::<C>(e, n, s, t, x); }
    tot_append::<C, PathHom2Cell>(ok);
    assert forall|p1: Seq<(C, PathHom2Cell, Time)>, p2: Seq<(C, PathHom2Cell, Time)>, p3: Seq<(C, PathHom2Cell, Time)>| #![trigger p1 + p2 + p3] edge_tots(p1, p2, p3, e, n, s, t) implies tot(p1 + p2 + p3, ecf::<C>(e, n, s, t), ok) by {
        let q = p1 + p2 + p3;
        assert(tot(p1 + p2, osum(pre_co::<C>(e, n, s, t), tri::<C>(e, n, s, t)), ok));
        assert(tot(q, co, ok));
        assert forall|x: PathHom2Cell| #[trigger] cc(q, x) == ecf::<C>(e, n, s, t)(x) by { assert(cc(q, x) == co(x)); }
    }
}
pub open spec fn edge_tots<C: NonZeroCoefficient>(p1: Seq<(C, PathHom2Cell, Time)>, p2: Seq<(C, PathHom2Cell, Time)>, p3: Seq<(C, PathHom2Cell, Time)>, e: Et, n: u16, s: u16, t: u16) -> bool {
    tot(p1, pre_co::<C>(e, n, s, t), okf(e, n)) && tot(p2, tri::<C>(e, n, s, t), okf(e, n)) && tot(p3, post_co::<C>(e, n, s, t), okf(e, n))
}
/// the paths through an edge and the triangles over it make up its coefficient in a 2-cell
pub proof fn edge_coef<C: NonZeroCoefficient>(e: Et, n: u16, s: u16, t: u16, x: PathHom2Cell)
    requires is_ring::<C>(), e_ok(e, n), s < n, t < n,
    ensures sadd(sadd(pre_co::<C>(e, n, s, t)(x), tri::<C>(e, n, s, t)(x)), post_co::<C>(e, n, s, t)(x)) == ecf::<C>(e, n, s, t)(x),
{
    let col = PathHomCell::Edge(s, t);
    coef_pushes::<C, PathHomCell>(col);
    if is_cell2(e, n, x) {
        match x {
            PathHom2Cell::DoubleEdge(a, b) => { assert(e(a, a) is None && e(b, b) is None); }
            PathHom2Cell::DirectedTriangle(a, b, c) => { assert(e(a, a) is None && e(b, b) is None && e(c, c) is None); }
            PathHom2Cell::LongSquare(a, b, c, d) => { assert(e(a, a) is None && e(b, b) is None && e(c, c) is None && e(d, d) is None); }
        }
    }
}

/// the edges at a node
pub open spec fn timed_edge<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, c: C, a: u16, b: u16) -> Option<(C, PathHomCell, Time)> {
    if es.contains((a, b)) { Some((c, PathHomCell::Edge(a, b), nn(f64_zero()))) } else { match e(a, b) { Some(t) => Some((c, PathHomCell::Edge(a, b), t)), None => None } }
}
pub open spec fn out_at<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, s: u16) -> spec_fn(u16) -> Option<(C, PathHomCell, Time)> { |j: u16| timed_edge(e, es, ne::<C>(), s, j) }
pub open spec fn in_at<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, s: u16) -> spec_fn(u16) -> Option<(C, PathHomCell, Time)> { |j: u16| timed_edge(e, es, po::<C>(), j, s) }
pub open spec fn e_src(x: PathHomCell) -> u16 { match x { PathHomCell::Edge(a, _) => a, _ => 0 } }
pub open spec fn e_tgt(x: PathHomCell) -> u16 { match x { PathHomCell::Edge(_, b) => b, _ => 0 } }
pub open spec fn out_co<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, s: u16) -> spec_fn(PathHomCell) -> Option<C> { |x: PathHomCell| if e_tgt(x) < n { topt(out_at::<C>(e, es, s)(e_tgt(x)), x) } else { None } }
pub open spec fn in_co<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, s: u16) -> spec_fn(PathHomCell) -> Option<C> { |x: PathHomCell| if e_src(x) < n { topt(in_at::<C>(e, es, s)(e_src(x)), x) } else { None } }
pub open spec fn node_tots<C: NonZeroCoefficient>(p: Seq<(C, PathHomCell, Time)>, q: Seq<(C, PathHomCell, Time)>, e: Et, es: Set<(u16, u16)>, n: u16, s: u16) -> bool {
    tot(p, out_co::<C>(e, es, n, s), okn(e, es, n)) && tot(q, in_co::<C>(e, es, n, s), okn(e, es, n))
}
pub proof fn node_sum<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, s: u16)
    requires is_ring::<C>(), s < n,
    ensures
        forall|i: Seq<u16>, res: Seq<Option<(C, PathHomCell, Time)>>| #![trigger sieve(i, n, on(out_at::<C>(e, es, s))), somes(res)] sieve(i, n, on(out_at::<C>(e, es, s))) && res_by(i, res, out_at::<C>(e, es, s)) ==> tot(somes(res), out_co::<C>(e, es, n, s), okn(e, es, n)),
        forall|i: Seq<u16>, res: Seq<Option<(C, PathHomCell, Time)>>| #![trigger sieve(i, n, on(in_at::<C>(e, es, s))), somes(res)] sieve(i, n, on(in_at::<C>(e, es, s))) && res_by(i, res, in_at::<C>(e, es, s)) ==> tot(somes(res), in_co::<C>(e, es, n, s), okn(e, es, n)),
        forall|p: Seq<(C, PathHomCell, Time)>, q: Seq<(C, PathHomCell, Time)>| #![trigger p + q] node_tots(p, q, e, es, n, s) || node_tots(q, p, e, es, n, s) ==> tot(p + q, ncf::<C>(e, es, n, s), okn(e, es, n)),
{
    reveal(tot);
    let ok = okn(e, es, n);
    let (c1, c2) = (out_co::<C>(e, es, n, s), in_co::<C>(e, es, n, s));
    tot_somes::<C, PathHomCell>(n, out_at::<C>(e, es, s), |x: PathHomCell| e_tgt(x), c1, ok);
    tot_somes::<C, PathHomCell>(n, in_at::<C>(e, es, s), |x: PathHomCell| e_src(x), c2, ok);
    tot_append::<C, PathHomCell>(ok);
    assert forall|x: PathHomCell| #[trigger] osum(c1, c2)(x) == ncf::<C>(e, es, n, s)(x) && osum(c2, c1)(x) == ncf::<C>(e, es, n, s)(x) by { node_coef::<C>(e, es, n, s, x); }
    assert forall|p: Seq<(C, PathHomCell, Time)>, q: Seq<(C, PathHomCell, Time)>| #![trigger p + q] node_tots(p, q, e, es, n, s) || node_tots(q, p, e, es, n, s) implies tot(p + q, ncf::<C>(e, es, n, s), ok) by {
        if node_tots(p, q, e, es, n, s) { assert(tot(p + q, osum(c1, c2), ok)); } else { assert(tot(p + q, osum(c2, c1), ok)); }
        assert forall|x: PathHomCell| #[trigger] cc(p + q, x) == ncf::<C>(e, es, n, s)(x) by { assert(osum(c1, c2)(x) == ncf::<C>(e, es, n, s)(x)); }
    }
}
/// the edges that leave and those that arrive make up the coefficient of a node in an edge
pub proof fn node_coef<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, s: u16, x: PathHomCell)
    requires is_ring::<C>(), s < n,
    ensures
        sadd(out_co::<C>(e, es, n, s)(x), in_co::<C>(e, es, n, s)(x)) == ncf::<C>(e, es, n, s)(x),
        sadd(in_co::<C>(e, es, n, s)(x), out_co::<C>(e, es, n, s)(x)) == ncf::<C>(e, es, n, s)(x),
{
    coef_pushes::<C, PathHomCell>(PathHomCell::Node(s));
    sadd_comm(out_co::<C>(e, es, n, s)(x), in_co::<C>(e, es, n, s)(x));
    match x {
        PathHomCell::Node(_) => {}
        PathHomCell::Edge(a, b) => {}
        PathHomCell::TwoCell(y) => match y { PathHom2Cell::DoubleEdge(..) => {}, PathHom2Cell::DirectedTriangle(..) => {}, PathHom2Cell::LongSquare(..) => {} },
    }
}

/// the map after the pairs before (s, t)
#[verifier::opaque]
pub open spec fn bm_upto(m: Map<(u16, u16), u16>, e: Et, n: u16, s: int, t: int) -> bool {
    &&& forall|a: u16, c: u16| #[trigger] m.dom().contains((a, c)) ==> a < n && c < n && is_bridge(e, n, a, c, m[(a, c)])
    &&& forall|a: u16, b: u16, c: u16| a < n && b < n && c < n && (a < s || (a == s && c < t)) && (#[trigger] two(e, a, b, c)) is Some && before(two(e, a, b, c)->0, e(a, c)) ==> m.dom().contains((a, c))
}
pub proof fn bm_done(m: Map<(u16, u16), u16>, e: Et, n: u16)
    requires bm_upto(m, e, n, n as int, 0),
    ensures bm_ok(m, e, n),
{ reveal(bm_upto); }
pub proof fn bm_next(m: Map<(u16, u16), u16>, e: Et, n: u16, s: int)
    requires bm_upto(m, e, n, s, n as int),
    ensures bm_upto(m, e, n, s + 1, 0),
{ reveal(bm_upto); }
pub open spec fn bridge_at(e: Et, s: u16, t: u16) -> spec_fn(u16) -> Option<(Time, u16)> { |i: u16| match two(e, s, i, t) { Some(w) => Some((w, i)), None => None } }
pub open spec fn no_path(e: Et, n: u16, s: u16, t: u16) -> bool { forall|i: u16| i < n ==> (#[trigger] two(e, s, i, t)) is None }
pub open spec fn best_of(e: Et, n: u16, s: u16, t: u16, r: (Time, u16)) -> bool { is_best(e, n, s, t, r.1) && r.0 == two(e, s, r.1, t)->0 }
pub proof fn best_of_list(e: Et, n: u16, s: u16, t: u16)
    ensures
        forall|i: Seq<u16>, res: Seq<Option<(Time, u16)>>| #![trigger sieve(i, n, on(bridge_at(e, s, t))), somes(res)] sieve(i, n, on(bridge_at(e, s, t))) && res_by(i, res, bridge_at(e, s, t)) ==>
            (somes(res).len() == 0 ==> no_path(e, n, s, t)) && forall|m: (Time, u16)| #[trigger] is_min2(somes(res), m) ==> best_of(e, n, s, t, m),
{
    let g = bridge_at(e, s, t);
    assert forall|i: Seq<u16>, res: Seq<Option<(Time, u16)>>| #![trigger sieve(i, n, on(g)), somes(res)] sieve(i, n, on(g)) && res_by(i, res, g) implies
            (somes(res).len() == 0 ==> no_path(e, n, s, t)) && forall|m: (Time, u16)| #[trigger] is_min2(somes(res), m) ==> best_of(e, n, s, t, m) by {
        let l = somes(res);
        somes_in(res);
        assert forall|j: u16| j < n && (#[trigger] two(e, s, j, t)) is Some implies l.contains((two(e, s, j, t)->0, j)) by {
            assert(on(g)(j));
            assert(i.contains(j));
            let k = i.index_of(j);
            assert(i[k] == j);
            assert(res[k] == g(i[k]));
        }
        assert forall|m: (Time, u16)| #[trigger] is_min2(l, m) implies best_of(e, n, s, t, m) by {
            let p = l.index_of(m);
            assert(l[p] == m);
            let k = choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == Some(l[p]);
            assert(res[k] == g(i[k]));
            assert(i[k] < n);
            assert forall|j: u16| j < n && (#[trigger] two(e, s, j, t)) is Some implies leq2((two(e, s, m.1, t)->0, m.1), (two(e, s, j, t)->0, j)) by {
                let q = l.index_of((two(e, s, j, t)->0, j));
                assert(l[q] == (two(e, s, j, t)->0, j));
            }
        }
    }
}
pub proof fn bm_step(m: Map<(u16, u16), u16>, e: Et, n: u16, s: u16, t: u16)
    requires bm_upto(m, e, n, s as int, t as int), s < n, t < n,
    ensures
        no_path(e, n, s, t) ==> bm_upto(m, e, n, s as int, t + 1),
        forall|r: (Time, u16)| #[trigger] best_of(e, n, s, t, r) && !before(r.0, e(s, t)) ==> bm_upto(m, e, n, s as int, t + 1),
        forall|r: (Time, u16)| #[trigger] best_of(e, n, s, t, r) && before(r.0, e(s, t)) ==> bm_upto(m.insert((s, t), r.1), e, n, s as int, t + 1),
{
    reveal(bm_upto);
    time_lawful();
    assert forall|r: (Time, u16)| #[trigger] best_of(e, n, s, t, r) && !before(r.0, e(s, t)) implies bm_upto(m, e, n, s as int, t + 1) by {
        assert forall|a: u16, b: u16, c: u16| a < n && b < n && c < n && (a < s || (a == s && c < t + 1)) && (#[trigger] two(e, a, b, c)) is Some && before(two(e, a, b, c)->0, e(a, c)) implies m.dom().contains((a, c)) by {
            if a == s && c == t {
                assert(leq2((two(e, s, r.1, t)->0, r.1), (two(e, s, b, t)->0, b)));
                leq_trans(e(s, t)->0, r.0, two(e, s, b, t)->0);
                leq_total(e(s, t)->0, r.0);
                leq_total(r.0, two(e, s, b, t)->0);
                leq_total(e(s, t)->0, two(e, s, b, t)->0);
            }
        }
    }
    assert forall|r: (Time, u16)| #[trigger] best_of(e, n, s, t, r) && before(r.0, e(s, t)) implies bm_upto(m.insert((s, t), r.1), e, n, s as int, t + 1) by { }
}

/// nodes and the edges of the graph
pub proof fn nodes_listed(n: u16)
    ensures forall|q: Seq<(Time, PathHomCell)>| #![trigger q.len()] q.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] q[k]) == (nn(f64_zero()), PathHomCell::Node(k as u16))) ==> lists(q, want0(n)),
{
    reveal(lists);
    assert forall|q: Seq<(Time, PathHomCell)>| #![trigger q.len()] q.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] q[k]) == (nn(f64_zero()), PathHomCell::Node(k as u16))) implies lists(q, want0(n)) by {
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(q[i].1 == PathHomCell::Node(i as u16) && q[j].1 == PathHomCell::Node(j as u16)); }
        assert forall|x: (Time, PathHomCell)| q.contains(x) <==> #[trigger] want0(n)(x) by {
            if q.contains(x) { let k = q.index_of(x); assert(q[k] == x); }
            if want0(n)(x) { if let PathHomCell::Node(a) = x.1 { assert(q[a as int] == x); } }
        }
    }
}
pub open spec fn grounded(k: (u16, u16)) -> (Time, PathHomCell) { (nn(f64_zero()), PathHomCell::Edge(k.0, k.1)) }
pub proof fn edges_listed(s: HashSet<(u16, u16)>, e: Et, n: u16)
    ensures forall|q: Seq<(Time, PathHomCell)>| #![trigger q.len()] q.len() == set_order(s).len() && (forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]) == grounded(set_order(s)[k])) ==> lists(q, w1_upto(e, s@, n, 0, 0)),
{
    reveal(lists);
    axiom_set_order(s);
    let o = set_order(s);
    let w = w1_upto(e, s@, n, 0, 0);
    assert forall|q: Seq<(Time, PathHomCell)>| #![trigger q.len()] q.len() == o.len() && (forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]) == grounded(o[k])) implies lists(q, w) by {
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(q[i] == grounded(o[i]) && q[j] == grounded(o[j])); assert(o[i] != o[j]); }
        assert forall|x: (Time, PathHomCell)| q.contains(x) <==> #[trigger] w(x) by {
            if q.contains(x) { let k = q.index_of(x); assert(q[k] == x); assert(o.contains(o[k])); }
            if w(x) { if let PathHomCell::Edge(a, b) = x.1 { assert(o.contains((a, b))); let k = o.index_of((a, b)); assert(o[k] == (a, b)); assert(q[k] == x); } }
        }
    }
}
/// the edges of the graph and the timed pairs before (s, t)
pub open spec fn w1_upto(e: Et, es: Set<(u16, u16)>, n: u16, s: int, t: int) -> spec_fn((Time, PathHomCell)) -> bool {
    |x: (Time, PathHomCell)| match x.1 { PathHomCell::Edge(a, b) => if es.contains((a, b)) { x.0 == nn(f64_zero()) } else { a < n && b < n && (a < s || (a == s && b < t)) && e(a, b) == Some(x.0) }, _ => false }
}
pub proof fn w1_next(q: Seq<(Time, PathHomCell)>, e: Et, es: Set<(u16, u16)>, n: u16, s: int)
    requires lists(q, w1_upto(e, es, n, s, n as int)),
    ensures lists(q, w1_upto(e, es, n, s + 1, 0)),
{ reveal(lists); let w = w1_upto(e, es, n, s, n as int); let w2 = w1_upto(e, es, n, s + 1, 0); assert forall|x: (Time, PathHomCell)| #[trigger] w2(x) == w(x) by {} }
pub proof fn w1_done(q: Seq<(Time, PathHomCell)>, e: Et, es: Set<(u16, u16)>, n: u16)
    requires lists(q, w1_upto(e, es, n, n as int, 0)),
    ensures lists(q, want1(e, es, n)),
{ reveal(lists); let w = w1_upto(e, es, n, n as int, 0); let w2 = want1(e, es, n); assert forall|x: (Time, PathHomCell)| #[trigger] w2(x) == w(x) by {} }
pub proof fn w1_step(q: Seq<(Time, PathHomCell)>, e: Et, es: Set<(u16, u16)>, n: u16, s: u16, t: u16)
    requires lists(q, w1_upto(e, es, n, s as int, t as int)), s < n, t < n,
    ensures
        es.contains((s, t)) || e(s, t) is None ==> lists(q, w1_upto(e, es, n, s as int, t + 1)),
        !es.contains((s, t)) && e(s, t) is Some ==> lists(q.push((e(s, t)->0, PathHomCell::Edge(s, t))), w1_upto(e, es, n, s as int, t + 1)),
{
    let w = w1_upto(e, es, n, s as int, t as int); let w2 = w1_upto(e, es, n, s as int, t + 1);
    if es.contains((s, t)) || e(s, t) is None {
        assert forall|x: (Time, PathHomCell)| #[trigger] w2(x) == w(x) by {}
        reveal(lists);
    } else {
        lists_push(q, w, (e(s, t)->0, PathHomCell::Edge(s, t)), w2);
    }
}
pub proof fn listed(s: Seq<(Time, PathHomCell)>, w: spec_fn((Time, PathHomCell)) -> bool)
    ensures lists(s, w) && sorted2(s) ==> listing(s, w),
{ reveal(lists); }

// ---------------------------------------------------------------- columns
pub open spec fn untimed<C>(s: Seq<(C, PathHomCell, Time)>, q: Seq<(C, PathHomCell)>) -> bool { q.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] q[k] == (s[k].0, s[k].1) }
pub open spec fn untimed2<C>(s: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHomCell)>) -> bool { q.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] q[k] == (s[k].0, PathHomCell::TwoCell(s[k].1)) }
pub proof fn coef_two_cells<C: NonZeroCoefficient>(s: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHomCell)>, x: PathHomCell)
    requires untimed2(s, q),
    ensures coef(q, x) == (match x { PathHomCell::TwoCell(y) => cc(s, y), _ => None }),
    decreases s.len(),
{
    if s.len() > 0 {
        let (s1, q1) = (s.drop_last(), q.drop_last());
        let l = s.len() - 1;
        assert forall|k: int| 0 <= k < s1.len() implies #[trigger] q1[k] == (s1[k].0, PathHomCell::TwoCell(s1[k].1)) by { assert(q[k] == q1[k]); }
        coef_two_cells(s1, q1, x);
        assert(q =~= q1.push(q[l]));
        assert(cps(s) =~= cps(s1).push((s[l].0, s[l].1)));
        coef_push(q1, q[l], x);
        if let PathHomCell::TwoCell(y) = x { coef_push(cps(s1), (s[l].0, s[l].1), y); }
    } else {
        assert(cps(s) =~= Seq::empty());
    }
}
/// the column of the transpose is what the coboundary of the column lists
pub proof fn col_rows<C: NonZeroCoefficient, F: DigraphFiltration>(f: F, es: Set<(u16, u16)>, n: u16, col: PathHomCell)
    requires dom_ok(f, n),
    ensures
        match col {
            PathHomCell::Node(a) => {
                &&& forall|s: Seq<(C, PathHomCell, Time)>, q: Seq<(C, PathHomCell)>| #![trigger tot(s, ncf::<C>(f.et(), es, n, a), okn(f.et(), es, n)), is_transposed(q, f.et(), es, n, col)] tot(s, ncf::<C>(f.et(), es, n, a), okn(f.et(), es, n)) && untimed(s, q) ==> is_transposed(q, f.et(), es, n, col)
                &&& forall|s: Seq<(C, PathHomCell, Time)>, k: int| #![trigger tot(s, ncf::<C>(f.et(), es, n, a), okn(f.et(), es, n)), s[k]] tot(s, ncf::<C>(f.et(), es, n, a), okn(f.et(), es, n)) && 0 <= k < s.len() ==> row_ok(f, es, s[k].1) && in_filt(f.et(), n, es, s[k].1) && degree(s[k].1) == 1 && s[k].2 == ftime(f.et(), es, s[k].1)
            },
            PathHomCell::Edge(a, b) => {
                &&& forall|s: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHomCell)>| #![trigger tot(s, ecf::<C>(f.et(), n, a, b), okf(f.et(), n)), is_transposed(q, f.et(), es, n, col)] tot(s, ecf::<C>(f.et(), n, a, b), okf(f.et(), n)) && untimed2(s, q) ==> is_transposed(q, f.et(), es, n, col)
                &&& forall|s: Seq<(C, PathHom2Cell, Time)>, k: int| #![trigger tot(s, ecf::<C>(f.et(), n, a, b), okf(f.et(), n)), s[k]] tot(s, ecf::<C>(f.et(), n, a, b), okf(f.et(), n)) && 0 <= k < s.len() ==> row_ok(f, es, PathHomCell::TwoCell(s[k].1)) && is_cell2(f.et(), n, s[k].1) && s[k].2 == ftime(f.et(), es, PathHomCell::TwoCell(s[k].1))
            },
            _ => true,
        },
{
    let e = f.et();
    reveal(tot);
    match col {
        PathHomCell::Node(a) => {
            let (co, ok) = (ncf::<C>(e, es, n, a), okn(e, es, n));
            assert forall|s: Seq<(C, PathHomCell, Time)>, q: Seq<(C, PathHomCell)>| #![trigger tot(s, co, ok), is_transposed(q, e, es, n, col)] tot(s, co, ok) && untimed(s, q) implies is_transposed(q, e, es, n, col) by {
                assert(q =~= cps(s));
                assert forall|row: PathHomCell| (#[trigger] coef(q, row)) == tr_coef::<C>(e, es, n, col, row) by { assert(cc(s, row) == co(row)); }
            }
            assert forall|s: Seq<(C, PathHomCell, Time)>, k: int| #![trigger tot(s, co, ok), s[k]] tot(s, co, ok) && 0 <= k < s.len() implies row_ok(f, es, s[k].1) && in_filt(e, n, es, s[k].1) && degree(s[k].1) == 1 && s[k].2 == ftime(e, es, s[k].1) by { assert(ok(s[k].1, s[k].2)); }
        }
        PathHomCell::Edge(a, b) => {
            let (co, ok) = (ecf::<C>(e, n, a, b), okf(e, n));
            coef_pushes::<C, PathHomCell>(col);
            assert forall|s: Seq<(C, PathHom2Cell, Time)>, q: Seq<(C, PathHomCell)>| #![trigger tot(s, co, ok), is_transposed(q, e, es, n, col)] tot(s, co, ok) && untimed2(s, q) implies is_transposed(q, e, es, n, col) by {
                assert forall|row: PathHomCell| (#[trigger] coef(q, row)) == tr_coef::<C>(e, es, n, col, row) by {
                    coef_two_cells(s, q, row);
                    match row { PathHomCell::TwoCell(y) => { assert(cc(s, y) == co(y)); }, _ => {} }
                }
            }
            assert forall|s: Seq<(C, PathHom2Cell, Time)>, k: int| #![trigger tot(s, co, ok), s[k]] tot(s, co, ok) && 0 <= k < s.len() implies row_ok(f, es, PathHomCell::TwoCell(s[k].1)) && is_cell2(e, n, s[k].1) && s[k].2 == ftime(e, es, PathHomCell::TwoCell(s[k].1)) by {
                assert(ok(s[k].1, s[k].2));
            }
        }
        _ => {}
    }
}

pub open spec fn degree(x: PathHomCell) -> int { match x { PathHomCell::Node(_) => 0, PathHomCell::Edge(_, _) => 1, PathHomCell::TwoCell(_) => 2 } }
/// there is such a column
pub open spec fn tr_list<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, col: PathHomCell, k: nat) -> Seq<(C, PathHomCell)>
    decreases k,
{
    if k == 0 { Seq::empty() } else {
        let p = tr_list::<C>(e, es, n, col, (k - 1) as nat);
        if exists|x: PathHomCell| #[trigger] key(x) == k - 1 {
            let x = choose|x: PathHomCell| #[trigger] key(x) == k - 1;
            match tr_coef::<C>(e, es, n, col, x) { Some(c) => p.push((c, x)), None => p }
        } else { p }
    }
}
pub proof fn tr_list_coef<C: NonZeroCoefficient>(e: Et, es: Set<(u16, u16)>, n: u16, col: PathHomCell, k: nat, row: PathHomCell)
    ensures coef(tr_list::<C>(e, es, n, col, k), row) == (if 0 <= key(row) < k { tr_coef::<C>(e, es, n, col, row) } else { None }),
    decreases k,
{
    if k > 0 {
        let p = tr_list::<C>(e, es, n, col, (k - 1) as nat);
        tr_list_coef::<C>(e, es, n, col, (k - 1) as nat, row);
        if exists|x: PathHomCell| #[trigger] key(x) == k - 1 {
            let x = choose|x: PathHomCell| #[trigger] key(x) == k - 1;
            if let Some(c) = tr_coef::<C>(e, es, n, col, x) { coef_push(p, (c, x), row); }
            if key(row) == k - 1 { key_inj(x, row); }
        }
    }
}
pub proof fn key_bound(x: PathHomCell)
    ensures 0 <= key(x) < lex5(5, 0, 0, 0, 0),
{}
pub proof fn transposed_exists<CF: NonZeroCoefficient, F: DigraphFiltration>(m: GrPPHCoboundary<CF, F>, col: PathHomCell)
    ensures is_transposed(m.m_col(col), m.filtration.et(), m.edge_set@, m.n_vertices, col),
{
    let (e, es, n) = (m.filtration.et(), m.edge_set@, m.n_vertices);
    let k = lex5(5, 0, 0, 0, 0) as nat;
    let s = tr_list::<CF>(e, es, n, col, k);
    assert forall|row: PathHomCell| (#[trigger] coef(s, row)) == tr_coef::<CF>(e, es, n, col, row) by { key_bound(row); tr_list_coef::<CF>(e, es, n, col, k, row); }
    assert(is_transposed(s, e, es, n, col));
}
