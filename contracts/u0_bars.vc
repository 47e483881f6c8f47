@@file phlite_grpph/src/lib.rs bars
@@use
use crate::prelude::*;
use crate::ints::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::combinators::*;
use crate::reduction::*;
use crate::reduce::*;
use crate::standard::*;
use crate::clearing::*;
use crate::digraphs::*;
use crate::coboundary::*;
use crate::boundary::*;
use crate::shortest::*;
use crate::pathbetti::{path_bettis, path_bettis_all};
use crate::duality::{theorem_dual, co_reduced, bd_reduced, transposed, from_on};
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
@@skip fn phlite_grpph -- Python module initialisation
@@fn build_filtration
@ret r
@spec
    requires digraph(n_vertices, edges@),
    ensures is_filtration(r@, n_vertices, edges@),
@start
    let ghost es = edges@;
    let ghost fin = finite(es);
@loop 0
    invariant g.nodes() == vpit0.index@, g.edges() == Seq::<WEdge>::empty(), n_vertices <= 65535,
@closureparam 0 vpa0_0: &&WEdge
@closure 0 r: bool
    ensures r == f64_lt((**vpa0_0).2, f64_inf())
@before extend_with_edges
    proof { select_edges(es); }
@before loop#1
    proof { assert forall|s: Seq<WEdge>| #[trigger] (Seq::<WEdge>::empty() + s) == s by { assert(Seq::<WEdge>::empty() + s =~= s); } }
@loop 1
    invariant
        n_vertices <= 65535, g.nodes() == n_vertices, digraph(n_vertices, es), fin == finite(es), listed_edges(g.edges()) == fin,
        filtration@.len() == vpit1.index@,
        forall|a: int| 0 <= a < vpit1.index@ ==> row_of(#[trigger] filtration@[a]@, n_vertices, fin, a as u32),
@loopstart 1
    let ghost src = i;
    proof {
        assert forall|k: int| 0 <= k < g.edges().len() implies f64_le(f64_zero(), (#[trigger] g.edges()[k]).2) by { assert(listed_edges(g.edges())(g.edges()[k])); }
    }
@closureparam 1 e: EdgeReference
@closure 1 r: f64
    ensures r == e.e.2
@closureparam 2 j: u32
@closure 2 r: Option<NotNan<f64>>
    requires
        src == i,
        forall|j: NodeIndex| #[trigger] sp_lengths@.dom().contains(j) <==> reachable(fin, i, j.i),
        forall|j: NodeIndex| #[trigger] sp_lengths@.dom().contains(j) ==> !f64_nan(sp_lengths@[j]) && is_dist(fin, i, j.i, nn(sp_lengths@[j]))
    ensures r == (if i == j { None } else { dist(fin, i, j) })
@closurestart 2
    proof { dist_cases(fin, i, j); }
@closureparam 3 t: f64
@closure 3 r: NotNan<f64>
    requires !f64_nan(t)
    ensures r == nn(t)
@@fn build_edge_set
@ret r
@spec
    requires forall|k: int| 0 <= k < edges@.len() ==> (#[trigger] edges@[k]).0 <= 65535 && edges@[k].1 <= 65535,
    ensures r@ == grounds(edges@),
@start
    let ghost es = edges@;
@closureparam 0 vpa0_0: WEdge
@closure 0 r: (u16, u16)
    ensures r == (vpa0_0.0 as u16, vpa0_0.1 as u16)
@end
    proof {
        let q = es.map_values(|e: WEdge| (e.0 as u16, e.1 as u16));
        assert forall|p: (u16, u16)| #[trigger] vp_ret@.contains(p) <==> q.contains(p) by {
            assert(vp_ret@.contains((p.0, p.1)) <==> has_edge(es, p.0, p.1));
            if q.contains(p) { let k = q.index_of(p); assert(q[k] == p); assert(es[k].0 == p.0); }
            if has_edge(es, p.0, p.1) { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0 == p.0 && es[k].1 == p.1; assert(q[k] == p); }
        }
        assert(vp_ret@ =~= grounds(es));
    }
@@fn grpph
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
    requires digraph(n_vertices, edges@), finite_dists(n_vertices, edges@),
    ensures are_bars(r.0@, r.1@, n_vertices, edges@),
@start
    let ghost es0 = edges@;
    let ghost e = spt(n_vertices, edges@);
    let ghost es = grounds(edges@);
    let ghost n = n_vertices as u16;
    proof { grounds_has(n_vertices, es0); z2_is_field(); field_ring::<Z2>(); time_lawful(); lawful_eq::<Time>(); cell_lawful(); }
@after build_edge_set
    proof { table_is(&filtration, n_vertices, es0); }
@before build_with_diagram
    proof { assert forall|os: Seq<usize>| #![trigger bd_ok(&&d_rev, os)] #![trigger subs(&&d_rev, os)] os.len() == 2 && os[0].wi() == 0 && os[1].wi() == 1 implies bd_ok(&&d_rev, os) && fmap(&&d_rev) == rf(e, es) && dmap(&&d_rev) == rd(e, es, n) && subs(&&d_rev, os) == two_bases(d.basis.0@[0].0@, d.basis.0@[1].0@) by { reversed_ok(&d, &d_rev, n_vertices, es0, os); } }
@after build_with_diagram
    let ghost qe = set_order(diagram.essential);
    let ghost qp = set_order(diagram.pairings);
    proof { axiom_set_order(diagram.essential); axiom_set_order(diagram.pairings);
        diagram_rows(&d, n_vertices, es0, _v.reduction_columns.cv()@, diagram.essential@, diagram.pairings@);
        order_facts(qe, diagram.essential@); order_facts(qp, diagram.pairings@);
        lists_grow();
    }
@loop 0
    invariant
        vpit0.seq().len() == qe.len(), forall|k: int| 0 <= k < qe.len() ==> *(#[trigger] vpit0.seq()[k]) == qe[k],
        essential@.len() == 2, ess_upto(essential@, e, es, qe, vpit0.index@),
@loopend 0
    proof { ess_next(e, es, qe, vpit0.index@); }
@loop 1
    invariant
        vpit1.seq().len() == qp.len(), forall|k: int| 0 <= k < qp.len() ==> *(#[trigger] vpit1.seq()[k]) == qp[k],
        pairings@.len() == 2, pair_upto(pairings@, e, es, qp, vpit1.index@),
@loopend 1
    proof { pair_next(e, es, qp, vpit1.index@); }
@end
    proof {
        assert(qe.take(qe.len() as int) =~= qe); assert(qp.take(qp.len() as int) =~= qp);
        assert(is_persistence(e, es, n, qe.to_set(), qp.to_set()));
        path_bettis_all(e, es, n, qe.to_set(), qp.to_set());
        assert(ess_upto(vp_ret.0@, e, es, qe, qe.len() as int));
        assert(pair_upto(vp_ret.1@, e, es, qp, qp.len() as int));
        assert(bars_by(vp_ret.0@, vp_ret.1@, e, es, n, qe, qp));
    }
@@fn grpph_with_involution
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
    requires digraph(n_vertices, edges@), finite_dists(n_vertices, edges@),
    ensures are_bars_reps(r.0@, r.1@, r.2@, n_vertices, edges@),
@start
    hide(is_filtration); hide(clear_ok); hide(finite_dists); hide(e_ok);
    let ghost es0 = edges@;
    let ghost e = spt(n_vertices, edges@);
    let ghost es = grounds(edges@);
    let ghost n = n_vertices as u16;
    proof { grounds_has(n_vertices, es0); z2_is_field(); field_ring::<Z2>(); time_lawful(); lawful_eq::<Time>(); cell_lawful(); }
@after build_edge_set
    proof { table_is(&filtration, n_vertices, es0); }
@before build_with_diagram
    proof { assert forall|os: Seq<usize>| #![trigger bd_ok(&&d_rev, os)] #![trigger subs(&&d_rev, os)] os.len() == 2 && os[0].wi() == 0 && os[1].wi() == 1 implies bd_ok(&&d_rev, os) && fmap(&&d_rev) == rf(e, es) && dmap(&&d_rev) == rd(e, es, n) && subs(&&d_rev, os) == two_bases(d.basis.0@[0].0@, d.basis.0@[1].0@) by { reversed_ok(&d, &d_rev, n_vertices, es0, os); } }
@after build_with_diagram
    let ghost qe = set_order(diagram.essential);
    let ghost qp = set_order(diagram.pairings);
    proof { axiom_set_order(diagram.essential); axiom_set_order(diagram.pairings);
        diagram_rows(&d, n_vertices, es0, _v.reduction_columns.cv()@, diagram.essential@, diagram.pairings@);
        order_facts(qe, diagram.essential@); order_facts(qp, diagram.pairings@);
        lists_grow();
    }
@loop 0
    invariant
        vpit0.seq().len() == qe.len(), forall|k: int| 0 <= k < qe.len() ==> *(#[trigger] vpit0.seq()[k]) == qe[k],
        essential@.len() == 2, ess_upto(essential@, e, es, qe, vpit0.index@),
@loopend 0
    proof { ess_next(e, es, qe, vpit0.index@); }
@loop 1
    invariant
        vpit1.seq().len() == qp.len(), forall|k: int| 0 <= k < qp.len() ==> *(#[trigger] vpit1.seq()[k]) == qp[k],
        pairings@.len() == 2, pair_upto(pairings@, e, es, qp, vpit1.index@),
        involution_basis@ == inv_list(e, es, qp.take(vpit1.index@)),
@loopend 1
    proof { pair_next(e, es, qp, vpit1.index@); inv_next(e, es, qp, vpit1.index@); }
@before sort_unstable
    proof {
        assert(qp.take(qp.len() as int) =~= qp); assert(qe.take(qe.len() as int) =~= qe);
        inv_lists(e, es, n, qp);
        lists_sorted(inv_list(e, es, qp), wantd(e, es, qp.to_set()));
        lawful_cmp::<PathHomCell>();
    }
@after sort_unstable
    let ghost bt = involution_basis@;
    proof { lists_listing(bt, wantd(e, es, qp.to_set())); }
@before standard_algo_with_diagram
    let ghost b = cells(bt);
    let ghost f = pf(e, es);
    proof {
        assert(d_boundary.m_basis().b_seq() =~= b);
        assert(fmap(&&d_boundary) =~= f); assert(dmap(&&d_boundary) =~= pd()); assert(fmap(&d_boundary) =~= f); assert(dmap(&d_boundary) =~= pd());
        deaths_ok(&filtration, es, n, bt, qp.to_set());
        lemma_rdv_rows(&&d_boundary); lemma_rdv_rows(&d_boundary);
    }
@after standard_algo_with_diagram
    let ghost v = v_boundary.columns.cv()@;
    let ghost q2 = set_order(boundary_diagram.pairings);
    let ghost ess2 = boundary_diagram.essential@;
    let ghost a = rcol(pd(), vmap(v));
    proof {
        axiom_set_order(boundary_diagram.pairings);
        order_facts(q2, boundary_diagram.pairings@);
        rep_rows(e, es, n, bt, qp.to_set(), v, ess2, q2.to_set());
    }
@before loop#2
    proof { assert(dmap(&r_boundary.left) =~= pd()); }
@loop 2
    invariant
        vpit2.seq() == q2, reps_by(reps@, e, es, a, q2, vpit2.index@),
@before drain_sorted
    let ghost h0 = rep.heap.seq();
    let ghost col = a(death_cell);
    proof { drained_edges(f, h0, col); }
@closureparam 0 entry: ColumnEntry<Time, PathHomCell, Z2>
@closure 0 r: (u16, u16)
    requires is_edge(entry.row_index)
    ensures entry.row_index == PathHomCell::Edge(r.0, r.1)
@after collect
    proof { drained_rep(f, h0, col, new_rep@); }
@loopend 2
    proof { reps_next(e, es, q2, vpit2.index@); }
@end
    proof {
        assert(q2.take(q2.len() as int) =~= q2);
        assert(is_persistence(e, es, n, qe.to_set(), qp.to_set()));
        path_bettis_all(e, es, n, qe.to_set(), qp.to_set());
        assert(ess_upto(vp_ret.0@, e, es, qe, qe.len() as int));
        assert(pair_upto(vp_ret.1@, e, es, qp, qp.len() as int));
        assert(bars_by(vp_ret.0@, vp_ret.1@, e, es, n, qe, qp));
        assert(rep_pairs(e, es, qp.to_set(), bt, v, ess2, q2));
        assert(reps_by(vp_ret.2@, e, es, a, q2, q2.len() as int));
        reps_final(d_boundary.matrix, vp_ret.2@, e, es, n, qe.to_set(), qp.to_set(), bt, v, ess2, q2);
        assert(bars_reps_by(vp_ret.0@, vp_ret.1@, vp_ret.2@, e, es, n, qe, qp));
    }
@@append
pub proof fn order_facts<X>(q: Seq<X>, s: Set<X>)
    requires forall|x: X| #[trigger] q.contains(x) <==> s.contains(x),
    ensures q.to_set() == s, q.take(0) == Seq::<X>::empty(), q.take(q.len() as int) == q, forall|k: int| 0 <= k < q.len() ==> s.contains(#[trigger] q[k]),
{
    assert(q.to_set() =~= s);
    assert(q.take(0) =~= Seq::empty());
    assert(q.take(q.len() as int) =~= q);
    assert forall|k: int| 0 <= k < q.len() implies s.contains(#[trigger] q[k]) by { assert(q.contains(q[k])); }
}
pub proof fn lists_grow()
    ensures
        forall|v: Seq<f64>| #![trigger nns(v)] v.len() == 0 ==> nns(v) == Seq::<Time>::empty(),
        forall|v: Seq<f64>, x: f64| #[trigger] nns(v.push(x)) == nns(v).push(nn(x)),
        forall|v: Seq<(f64, f64)>| #![trigger nns2(v)] v.len() == 0 ==> nns2(v) == Seq::<(Time, Time)>::empty(),
        forall|v: Seq<(f64, f64)>, x: (f64, f64)| #[trigger] nns2(v.push(x)) == nns2(v).push((nn(x.0), nn(x.1))),
{
    assert forall|v: Seq<f64>| #![trigger nns(v)] v.len() == 0 implies nns(v) == Seq::<Time>::empty() by { assert(nns(v) =~= Seq::<Time>::empty()); }
    assert forall|v: Seq<f64>, x: f64| #[trigger] nns(v.push(x)) == nns(v).push(nn(x)) by { assert(nns(v.push(x)) =~= nns(v).push(nn(x))); }
    assert forall|v: Seq<(f64, f64)>| #![trigger nns2(v)] v.len() == 0 implies nns2(v) == Seq::<(Time, Time)>::empty() by { assert(nns2(v) =~= Seq::<(Time, Time)>::empty()); }
    assert forall|v: Seq<(f64, f64)>, x: (f64, f64)| #[trigger] nns2(v.push(x)) == nns2(v).push((nn(x.0), nn(x.1))) by { assert(nns2(v.push(x)) =~= nns2(v).push((nn(x.0), nn(x.1)))); }
}
/// vertices below `n` and no negative or NaN weight among the finite ones
pub open spec fn digraph(n: u32, es: Seq<WEdge>) -> bool {
    n <= 65535 && forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).0 < n && es[k].1 < n && (f64_lt(es[k].2, f64_inf()) ==> f64_le(f64_zero(), es[k].2))
}
/// the edges of finite weight
pub open spec fn finite(es: Seq<WEdge>) -> Edges { |e: WEdge| es.contains(e) && f64_lt(e.2, f64_inf()) }
pub open spec fn row_of(r: Seq<Option<Time>>, n: u32, g: Edges, i: u32) -> bool {
    r.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] r[j] == (if i == j { None } else { dist(g, i, j as u32) })
}
/// every ordered pair of distinct vertices has its shortest-path length
pub open spec fn is_filtration(r: Seq<Vec<Option<Time>>>, n: u32, es: Seq<WEdge>) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> row_of(#[trigger] r[i]@, n, finite(es), i as u32)
}
pub open spec fn has_edge(es: Seq<WEdge>, i: u16, j: u16) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0 == i && es[k].1 == j }
pub open spec fn refs(s: Seq<&WEdge>, es: Seq<WEdge>) -> bool { s.len() == es.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == es[i] }
pub open spec fn keeps_finite(s: Seq<&WEdge>, keep: Seq<bool>) -> bool { keep.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == f64_lt((*s[i]).2, f64_inf()) }
pub proof fn select_edges(es: Seq<WEdge>)
    ensures forall|s: Seq<&WEdge>, keep: Seq<bool>| #![trigger select(s, keep)] refs(s, es) && keeps_finite(s, keep) ==>
        (forall|k: int| 0 <= k < select(s, keep).len() ==> es.contains(*(#[trigger] select(s, keep)[k]))) && listed_edges(derefs(select(s, keep))) == finite(es),
{
    assert forall|s: Seq<&WEdge>, keep: Seq<bool>| #![trigger select(s, keep)] refs(s, es) && keeps_finite(s, keep) implies
        (forall|k: int| 0 <= k < select(s, keep).len() ==> es.contains(*(#[trigger] select(s, keep)[k]))) && listed_edges(derefs(select(s, keep))) == finite(es) by {
        let r = select(s, keep);
        select_in(s, keep);
        assert forall|k: int| 0 <= k < r.len() implies es.contains(*(#[trigger] r[k])) && f64_lt((*r[k]).2, f64_inf()) by {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == r[k] && keep[i];
            assert(es[i] == *r[k]);
        }
        assert forall|e: WEdge| #[trigger] listed_edges(derefs(r))(e) <==> finite(es)(e) by {
            let d = derefs(r);
            if d.contains(e) { let k = d.index_of(e); assert(d[k] == *r[k]); }
            if finite(es)(e) {
                let i = es.index_of(e);
                assert(*s[i] == e);
                assert(keep[i]);
                assert(r.contains(s[i]));
                let k = r.index_of(s[i]);
                assert(d[k] == e);
            }
        }
        assert(listed_edges(derefs(r)) =~= finite(es));
    }
}
pub proof fn dist_cases(g: Edges, i: u32, j: u32)
    ensures !reachable(g, i, j) ==> dist(g, i, j) is None, forall|t: Time| #[trigger] is_dist(g, i, j, t) ==> dist(g, i, j) == Some(t),
{
    assert forall|t: Time| #[trigger] is_dist(g, i, j, t) implies dist(g, i, j) == Some(t) by { dist_is(g, i, j, t); }
    if dist(g, i, j) is Some { let t = choose|t: Time| is_dist(g, i, j, t); assert(is_dist(g, i, j, t)); }
}

// ---------------------------------------------------------------- the complex of a digraph
pub type RCell = Reverse<PathHomCell>;
/// the time of every ordered pair: the length of a shortest path
pub open spec fn spt(n: u32, es: Seq<WEdge>) -> Et { |s: u16, t: u16| if s < n && t < n && s != t { dist(finite(es), s as u32, t as u32) } else { None } }
/// the edges of the digraph, present from the start
pub open spec fn grounds(es: Seq<WEdge>) -> Set<(u16, u16)> { es.map_values(|e: WEdge| (e.0 as u16, e.1 as u16)).to_set() }
/// no shortest path is infinitely long (sums do not overflow)
pub open spec fn finite_dists(n: u32, es: Seq<WEdge>) -> bool { forall|s: u16, t: u16| s < n && t < n && (#[trigger] spt(n, es)(s, t)) is Some ==> lt(spt(n, es)(s, t)->0, nn(f64_inf())) }
pub open spec fn on_vertices(es: Set<(u16, u16)>, n: u16) -> bool { forall|a: u16, b: u16| #[trigger] es.contains((a, b)) ==> a < n && b < n }
/// the coboundary of a cell, in reverse order
pub open spec fn tcol(e: Et, es: Set<(u16, u16)>, n: u16, x: PathHomCell) -> Seq<(Z2, PathHomCell)> { choose|s: Seq<(Z2, PathHomCell)>| #[trigger] is_transposed(s, e, es, n, x) }
pub open spec fn rd(e: Et, es: Set<(u16, u16)>, n: u16) -> spec_fn(RCell) -> Seq<(Z2, RCell)> { |x: RCell| rev_rows(tcol(e, es, n, x.0)) }
pub open spec fn rf(e: Et, es: Set<(u16, u16)>) -> spec_fn(RCell) -> Reverse<Time> { |x: RCell| Reverse(ftime(e, es, x.0)) }
pub open spec fn cells(b: Seq<(Time, PathHomCell)>) -> Seq<PathHomCell> { b.map_values(|x: (Time, PathHomCell)| x.1) }
pub open spec fn two_bases(b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>) -> Seq<Seq<RCell>> { seq![rev_seq(cells(b0)), rev_seq(cells(b1))] }
pub proof fn tcol_is(e: Et, es: Set<(u16, u16)>, n: u16, x: PathHomCell)
    ensures is_transposed(tcol(e, es, n, x), e, es, n, x),
{
    let k = lex5(5, 0, 0, 0, 0) as nat;
    let s = tr_list::<Z2>(e, es, n, x, k);
    assert forall|row: PathHomCell| (#[trigger] coef(s, row)) == tr_coef::<Z2>(e, es, n, x, row) by { key_bound(row); tr_list_coef::<Z2>(e, es, n, x, k, row); }
    assert(is_transposed(s, e, es, n, x));
}
pub proof fn rd_coef(e: Et, es: Set<(u16, u16)>, n: u16, x: RCell, y: RCell)
    ensures coef(rd(e, es, n)(x), y) == tr_coef::<Z2>(e, es, n, x.0, y.0),
{
    let s = tcol(e, es, n, x.0);
    tcol_is(e, es, n, x.0);
    coef_rev(s, y.0);
    assert(Reverse(y.0) == y);
    assert(coef(s, y.0) == tr_coef::<Z2>(e, es, n, x.0, y.0));
}
/// descending lists are ascending when reversed
pub proof fn reversed_listing(e: Et, es: Set<(u16, u16)>, b: Seq<(Time, PathHomCell)>, want: spec_fn((Time, PathHomCell)) -> bool, i: int, j: int)
    requires listing(b, want), 0 <= i < j < b.len(), forall|x: (Time, PathHomCell)| #[trigger] want(x) ==> x.0 == ftime(e, es, x.1),
    ensures rlt(rf(e, es), rev_seq(cells(b))[i], rev_seq(cells(b))[j]),
{
    let (p, q) = (b[b.len() - 1 - j], b[b.len() - 1 - i]);
    time_lawful(); cell_lawful();
    assert(b.contains(p) && b.contains(q));
    assert(want(p) && want(q));
    assert(leq2(p, q));
    assert(p != q);
    leq_total(p.0, q.0); leq_total(q.0, p.0); leq_total(p.1, q.1); leq_total(q.1, p.1);
    let (x, y) = (rev_seq(cells(b))[i], rev_seq(cells(b))[j]);
    assert(x == Reverse(q.1) && y == Reverse(p.1));
    assert(rf(e, es)(x) == Reverse(q.0) && rf(e, es)(y) == Reverse(p.0));
    assert(OrdSpec::cmp_spec(&Reverse(q.0), &Reverse(p.0)) == OrdSpec::cmp_spec(&p.0, &q.0));
    assert(OrdSpec::cmp_spec(&x, &y) == OrdSpec::cmp_spec(&p.1, &q.1));
}
pub proof fn grounds_has(n: u32, es: Seq<WEdge>)
    requires digraph(n, es),
    ensures forall|p: (u16, u16)| #[trigger] grounds(es).contains(p) <==> has_edge(es, p.0, p.1), on_vertices(grounds(es), n as u16),
{
    let q = es.map_values(|e: WEdge| (e.0 as u16, e.1 as u16));
    assert forall|p: (u16, u16)| #[trigger] grounds(es).contains(p) <==> has_edge(es, p.0, p.1) by {
        if grounds(es).contains(p) { let k = q.index_of(p); assert(q[k] == p); assert(es[k].0 < n); assert(es[k].0 == p.0); }
        if has_edge(es, p.0, p.1) { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0 == p.0 && es[k].1 == p.1; assert(q[k] == p); }
    }
    assert forall|a: u16, b: u16| #[trigger] grounds(es).contains((a, b)) implies a < n as u16 && b < n as u16 by { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0 == a && es[k].1 == b; assert(es[k].0 < n); }
}
pub proof fn mulcol_rev(d: spec_fn(PathHomCell) -> Seq<(Z2, PathHomCell)>, dr: spec_fn(RCell) -> Seq<(Z2, RCell)>, s: Seq<(Z2, PathHomCell)>)
    requires forall|x: PathHomCell| dr(Reverse(x)) == rev_rows(#[trigger] d(x)),
    ensures mulcol(dr, rev_rows(s)) == rev_rows(mulcol(d, s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let s1 = s.drop_last();
        mulcol_rev(d, dr, s1);
        assert(rev_rows(s).drop_last() =~= rev_rows(s1));
        let (c, x) = s.last();
        assert(rev_rows(s).last() == (c, Reverse(x)));
        assert(scale(rev_rows(d(x)), c) =~= rev_rows(scale(d(x), c)));
        assert(rev_rows(mulcol(d, s1) + scale(d(x), c)) =~= rev_rows(mulcol(d, s1)) + rev_rows(scale(d(x), c)));
    } else {
        assert(mulcol(dr, rev_rows(s)) =~= rev_rows(mulcol(d, s)));
    }
}
pub proof fn want_times(e: Et, es: Set<(u16, u16)>, n: u16)
    ensures
        forall|x: (Time, PathHomCell)| #[trigger] want0(n)(x) ==> x.0 == ftime(e, es, x.1) && degree(x.1) == 0,
        forall|x: (Time, PathHomCell)| #[trigger] want1(e, es, n)(x) ==> x.0 == ftime(e, es, x.1) && degree(x.1) == 1,
{}
/// an entry of a basis
pub proof fn basis_entry(e: Et, es: Set<(u16, u16)>, n: u16, b: Seq<(Time, PathHomCell)>, k: int)
    requires 0 <= k < b.len(), listing(b, want0(n)) || listing(b, want1(e, es, n)),
    ensures
        in_filt(e, n, es, b[k].1) || !on_vertices(es, n),
        listing(b, want0(n)) ==> degree(b[k].1) == 0 && want0(n)(b[k]), listing(b, want1(e, es, n)) ==> degree(b[k].1) == 1 && want1(e, es, n)(b[k]),
        rev_seq(cells(b))[b.len() - 1 - k] == Reverse(b[k].1), rev_seq(cells(b)).len() == b.len(),
{ assert(b.contains(b[k])); want_times(e, es, n); if listing(b, want0(n)) { assert(want0(n)(b[k])); } if listing(b, want1(e, es, n)) { assert(want1(e, es, n)(b[k])); } }
/// every edge of the filtration is in the basis
pub proof fn basis_edges(e: Et, es: Set<(u16, u16)>, n: u16, b: Seq<(Time, PathHomCell)>, x: PathHomCell)
    requires listing(b, want1(e, es, n)), degree(x) == 1, in_filt(e, n, es, x),
    ensures rev_seq(cells(b)).contains(Reverse(x)),
{
    let w = (ftime(e, es, x), x);
    assert(want1(e, es, n)(w));
    let k = b.index_of(w);
    assert(b[k] == w);
    assert(rev_seq(cells(b))[b.len() - 1 - k] == Reverse(x));
}
/// the coboundary of a digraph is a filtered cochain complex in reverse order
pub proof fn digraph_complex<F: DigraphFiltration>(m: GrPPHCoboundary<Z2, F>, b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>)
    requires
        m.m_wf(), on_vertices(m.edge_set@, m.n_vertices), listing(b0, want0(m.n_vertices)), listing(b1, want1(m.filtration.et(), m.edge_set@, m.n_vertices)),
    ensures
        cl_cx(rf(m.filtration.et(), m.edge_set@), rd(m.filtration.et(), m.edge_set@, m.n_vertices), two_bases(b0, b1)),
        forall|x: RCell| #[trigger] in_subs(two_bases(b0, b1), x) ==> m.m_dom(x.0) && degree(x.0) < 2 && in_filt(m.filtration.et(), m.n_vertices, m.edge_set@, x.0),
{
    let (e, es, n) = (m.filtration.et(), m.edge_set@, m.n_vertices);
    let (f, d, bs) = (rf(e, es), rd(e, es, n), two_bases(b0, b1));
    want_times(e, es, n);
    assert forall|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() implies degree((#[trigger] bs[t][k]).0) == t && in_filt(e, n, es, bs[t][k].0) by {
        if t == 0 { basis_entry(e, es, n, b0, b0.len() - 1 - k); } else { basis_entry(e, es, n, b1, b1.len() - 1 - k); }
    }
    assert forall|t: int, i: int, j: int| 0 <= t < bs.len() && 0 <= i < j < bs[t].len() implies rlt(f, #[trigger] bs[t][i], #[trigger] bs[t][j]) by {
        if t == 0 { reversed_listing(e, es, b0, want0(n), i, j); } else { reversed_listing(e, es, b1, want1(e, es, n), i, j); }
    }
    assert forall|t: int, k: int, x: RCell| 0 <= t < bs.len() && 0 <= k < bs[t].len() && (#[trigger] coef(d(#[trigger] bs[t][k]), x)) is Some implies next_row(bs, t, x) by {
        let c = bs[t][k];
        rd_coef(e, es, n, c, x);
        coef_pushes::<Z2, PathHomCell>(c.0);
        assert(in_filt(e, n, es, x.0));
        assert(degree(x.0) == degree(c.0) + 1) by { row_degree::<Z2>(x.0, c.0); }
        if t == 0 { basis_edges(e, es, n, b1, x.0); assert(bs[1].contains(x)); }
        else {
            if in_subs(bs, x) { let (t2, k2) = choose|t2: int, k2: int| 0 <= t2 < bs.len() && 0 <= k2 < bs[t2].len() && #[trigger] bs[t2][k2] == x; }
        }
    }
    let dm = dmap(&m);
    assert forall|x: PathHomCell| d(Reverse(x)) == rev_rows(#[trigger] dm(x)) by { }
    assert forall|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() implies is_null(mulcol(d, d(#[trigger] bs[t][k]))) by {
        let c = bs[t][k].0;
        theorem_coboundary_squared(m, c);
        mulcol_rev(dm, d, m.m_col(c));
        let z = mulcol(dm, m.m_col(c));
        assert forall|x: RCell| (#[trigger] coef(rev_rows(z), x)) is None by { coef_rev(z, x.0); assert(coef(z, x.0) is None); assert(Reverse(x.0) == x); }
    }
}
pub proof fn row_degree<C: NonZeroCoefficient>(x: PathHomCell, c: PathHomCell)
    requires coef(bd::<C>(x), c) is Some,
    ensures degree(x) == degree(c) + 1,
{
    if !has_row(bd::<C>(x), c) { coef_absent(bd::<C>(x), c); }
    let t = bd::<C>(x);
    let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == c;
    match x {
        PathHomCell::Node(_) => {}
        PathHomCell::Edge(_, _) => {}
        PathHomCell::TwoCell(y) => match y { PathHom2Cell::DoubleEdge(..) => {}, PathHom2Cell::DirectedTriangle(..) => {}, PathHom2Cell::LongSquare(..) => {} },
    }
}

// ---------------------------------------------------------------- bars
pub open spec fn nns(v: Seq<f64>) -> Seq<Time> { v.map_values(|x: f64| nn(x)) }
pub open spec fn nns2(v: Seq<(f64, f64)>) -> Seq<(Time, Time)> { v.map_values(|x: (f64, f64)| (nn(x.0), nn(x.1))) }
/// the times of the listed cells of a degree
pub open spec fn ess_bars(e: Et, es: Set<(u16, u16)>, q: Seq<RCell>, dim: int) -> Seq<Time>
    decreases q.len(),
{
    if q.len() == 0 { Seq::empty() } else {
        let p = ess_bars(e, es, q.drop_last(), dim);
        if degree(q.last().0) == dim { p.push(ftime(e, es, q.last().0)) } else { p }
    }
}
/// (birth, death) of the listed pairs with birth in a degree, without the bars of length zero
pub open spec fn pair_bars(e: Et, es: Set<(u16, u16)>, q: Seq<(RCell, RCell)>, dim: int) -> Seq<(Time, Time)>
    decreases q.len(),
{
    if q.len() == 0 { Seq::empty() } else {
        let p = pair_bars(e, es, q.drop_last(), dim);
        let (y, x) = q.last();
        if degree(x.0) == dim && ftime(e, es, x.0) != ftime(e, es, y.0) { p.push((ftime(e, es, x.0), ftime(e, es, y.0))) } else { p }
    }
}
pub open spec fn ess_upto(v: Seq<Vec<f64>>, e: Et, es: Set<(u16, u16)>, q: Seq<RCell>, k: int) -> bool { forall|dim: int| 0 <= dim < 2 ==> nns((#[trigger] v[dim])@) == ess_bars(e, es, q.take(k), dim) }
pub open spec fn pair_upto(v: Seq<Vec<(f64, f64)>>, e: Et, es: Set<(u16, u16)>, q: Seq<(RCell, RCell)>, k: int) -> bool { forall|dim: int| 0 <= dim < 2 ==> nns2((#[trigger] v[dim])@) == pair_bars(e, es, q.take(k), dim) }
/// the diagram of the reversed coboundary: leads of the reduced columns, and the cycles that are no lead
pub open spec fn is_persistence(e: Et, es: Set<(u16, u16)>, n: u16, ess: Set<RCell>, par: Set<(RCell, RCell)>) -> bool {
    exists|b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, cols: Map<RCell, ReductionColumn<Z2, RCell>>| #[trigger] persistence_by(e, es, n, b0, b1, cols, ess, par)
}
pub open spec fn persistence_by(e: Et, es: Set<(u16, u16)>, n: u16, b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, cols: Map<RCell, ReductionColumn<Z2, RCell>>, ess: Set<RCell>, par: Set<(RCell, RCell)>) -> bool {
    listing(b0, want0(n)) && listing(b1, want1(e, es, n)) && clear_ok(rf(e, es), rd(e, es, n), two_bases(b0, b1), cols, ess, par)
}
/// every bar of the persistent homology in degree 0 and 1, once
pub open spec fn are_bars(ess: Seq<Vec<f64>>, par: Seq<Vec<(f64, f64)>>, n: u32, es: Seq<WEdge>) -> bool {
    bars_exist(ess, par, spt(n, es), grounds(es), n as u16)
}
pub open spec fn bars_exist(ess: Seq<Vec<f64>>, par: Seq<Vec<(f64, f64)>>, e: Et, ed: Set<(u16, u16)>, n: u16) -> bool {
    ess.len() == 2 && par.len() == 2 && exists|qe: Seq<RCell>, qp: Seq<(RCell, RCell)>| #[trigger] bars_by(ess, par, e, ed, n, qe, qp)
}
pub open spec fn bars_by(ess: Seq<Vec<f64>>, par: Seq<Vec<(f64, f64)>>, e: Et, ed: Set<(u16, u16)>, n: u16, qe: Seq<RCell>, qp: Seq<(RCell, RCell)>) -> bool {
    &&& qe.no_duplicates() && qp.no_duplicates()
    &&& is_persistence(e, ed, n, qe.to_set(), qp.to_set())
    &&& path_bettis(e, ed, n, qe.to_set(), qp.to_set())
    &&& ess_upto(ess, e, ed, qe, qe.len() as int) && pair_upto(par, e, ed, qp, qp.len() as int)
}
pub proof fn ess_next(e: Et, es: Set<(u16, u16)>, q: Seq<RCell>, k: int)
    requires 0 <= k < q.len(),
    ensures forall|dim: int| #![trigger ess_bars(e, es, q.take(k + 1), dim)] ess_bars(e, es, q.take(k + 1), dim) == (if degree(q[k].0) == dim { ess_bars(e, es, q.take(k), dim).push(ftime(e, es, q[k].0)) } else { ess_bars(e, es, q.take(k), dim) }),
{ assert(q.take(k + 1).drop_last() =~= q.take(k)); }
pub proof fn pair_next(e: Et, es: Set<(u16, u16)>, q: Seq<(RCell, RCell)>, k: int)
    requires 0 <= k < q.len(),
    ensures forall|dim: int| #![trigger pair_bars(e, es, q.take(k + 1), dim)] pair_bars(e, es, q.take(k + 1), dim) == (
        if degree(q[k].1.0) == dim && ftime(e, es, q[k].1.0) != ftime(e, es, q[k].0.0) { pair_bars(e, es, q.take(k), dim).push((ftime(e, es, q[k].1.0), ftime(e, es, q[k].0.0))) } else { pair_bars(e, es, q.take(k), dim) }),
{ assert(q.take(k + 1).drop_last() =~= q.take(k)); }
pub type Table = Vec<Vec<Option<Time>>>;
/// the table of shortest paths as a filtration
pub proof fn table_is(t: &Table, n: u32, es: Seq<WEdge>)
    requires digraph(n, es), is_filtration(t@, n, es), finite_dists(n, es),
    ensures t.et() == spt(n, es), dom_ok(t, n as u16), e_ok(t.et(), n as u16),
{
    assert forall|s: u16, u: u16| s < n && u < n implies t.e_dom(s, u) && #[trigger] t.et()(s, u) == spt(n, es)(s, u) by { assert(row_of(t@[s as int]@, n, finite(es), s as u32)); assert(t@[s as int]@[u as int] == (if s == u { None } else { dist(finite(es), s as u32, u as u32) })); }
    assert forall|s: u16, u: u16| #[trigger] t.et()(s, u) == spt(n, es)(s, u) by { if s < n { assert(row_of(t@[s as int]@, n, finite(es), s as u32)); } }
    assert(t.et() =~= spt(n, es));
}
pub type Cob<'a> = MatrixWithBasis<GrPPHCoboundary<'a, Z2, &'a Table>, PathHomMultiBasis>;
pub open spec fn cob_ok(d: &Cob, n: u32, es: Seq<WEdge>) -> bool {
    &&& digraph(n, es) && d.matrix.m_wf() && cells_ok(d.basis, d.matrix.filtration.et(), d.matrix.edge_set@, n as u16)
    &&& d.matrix.filtration.et() == spt(n, es) && d.matrix.edge_set@ == grounds(es) && d.matrix.n_vertices == n
}
pub proof fn reversed_ok(d: &Cob, r: &ReverseMatrix<&Cob>, n: u32, es: Seq<WEdge>, os: Seq<usize>)
    requires cob_ok(d, n, es), r.oracle == d, os.len() == 2, os[0] == 0, os[1] == 1,
    ensures
        bd_ok(&r, os), fmap(&r) == rf(spt(n, es), grounds(es)), dmap(&r) == rd(spt(n, es), grounds(es), n as u16),
        subs(&r, os) == two_bases(d.basis.0@[0].0@, d.basis.0@[1].0@),
{
    let (e, ed) = (spt(n, es), grounds(es));
    let (b0, b1) = (d.basis.0@[0].0@, d.basis.0@[1].0@);
    z2_is_field(); grounds_has(n, es);
    digraph_complex(d.matrix, b0, b1);
    assert(fmap(&r) =~= rf(e, ed));
    assert(dmap(&r) =~= rd(e, ed, n as u16));
    let s = subs(&r, os);
    let t = two_bases(b0, b1);
    assert(s[0] =~= t[0]);
    assert(s[1] =~= t[1]);
    assert(s =~= t);
    assert forall|x: RCell| #[trigger] in_subs(s, x) implies r.m_dom(x) by { assert(d.matrix.m_dom(x.0)); }
}
pub proof fn in_filt_row<F: DigraphFiltration>(f: F, es: Set<(u16, u16)>, n: u16, x: PathHomCell)
    requires dom_ok(f, n), in_filt(f.et(), n, es, x),
    ensures row_ok(f, es, x),
{
    match x {
        PathHomCell::TwoCell(y) => match y { PathHom2Cell::DoubleEdge(..) => {}, PathHom2Cell::DirectedTriangle(..) => {}, PathHom2Cell::LongSquare(..) => {} },
        _ => {}
    }
}
/// the cells of the diagram have times, and deaths are one degree above births
pub open spec fn diag_ess(e: Et, es: Set<(u16, u16)>, n: u16, ess: Set<RCell>) -> bool { forall|x: RCell| #[trigger] ess.contains(x) ==> in_filt(e, n, es, x.0) && 0 <= degree(x.0) < 2 }
pub open spec fn diag_par(e: Et, es: Set<(u16, u16)>, n: u16, par: Set<(RCell, RCell)>) -> bool {
    forall|y: RCell, x: RCell| #[trigger] par.contains((y, x)) ==> in_filt(e, n, es, x.0) && in_filt(e, n, es, y.0) && 0 <= degree(x.0) < 2 && degree(y.0) == degree(x.0) + 1
}
pub proof fn diagram_cells(e: Et, es: Set<(u16, u16)>, n: u16, b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, cols: Map<RCell, ReductionColumn<Z2, RCell>>, ess: Set<RCell>, par: Set<(RCell, RCell)>)
    requires listing(b0, want0(n)), listing(b1, want1(e, es, n)), on_vertices(es, n), clear_ok(rf(e, es), rd(e, es, n), two_bases(b0, b1), cols, ess, par),
    ensures is_persistence(e, es, n, ess, par), diag_ess(e, es, n, ess), diag_par(e, es, n, par), one_partner(par),
{
    let (f, dd, bs) = (rf(e, es), rd(e, es, n), two_bases(b0, b1));
    assert(persistence_by(e, es, n, b0, b1, cols, ess, par));
    assert forall|x: RCell| #[trigger] in_subs(bs, x) implies in_filt(e, n, es, x.0) && 0 <= degree(x.0) < 2 by {
        let (t, j) = choose|t: int, j: int| 0 <= t < bs.len() && 0 <= j < bs[t].len() && #[trigger] bs[t][j] == x;
        basis_degree(e, es, n, b0, b1, t, j);
    }
    assert forall|y: RCell, x: RCell| #[trigger] par.contains((y, x)) implies in_filt(e, n, es, x.0) && in_filt(e, n, es, y.0) && 0 <= degree(x.0) < 2 && degree(y.0) == degree(x.0) + 1 by {
        assert(in_subs(bs, x));
        let a = rcol(dd, vcl(dd, cols));
        assert(is_lead(f, a(x), y));
        let (t, j) = choose|t: int, j: int| 0 <= t < bs.len() && 0 <= j < bs[t].len() && #[trigger] bs[t][j] == x;
        assert(valid(f, dd, bs[t], vcl(dd, cols)));
        pair_degree(e, es, n, b0, b1, vcl(dd, cols)(x), t, j, y);
    }
}
pub proof fn pair_degree(e: Et, es: Set<(u16, u16)>, n: u16, b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, v: Seq<(Z2, RCell)>, t: int, j: int, y: RCell)
    requires
        listing(b0, want0(n)), listing(b1, want1(e, es, n)), on_vertices(es, n), 0 <= t < 2, 0 <= j < two_bases(b0, b1)[t].len(),
        crate::reduce::tri(two_bases(b0, b1)[t], v, j), coef(mulcol(rd(e, es, n), v), y) is Some,
    ensures in_filt(e, n, es, y.0), degree(y.0) == degree(two_bases(b0, b1)[t][j].0) + 1,
{
    let bs = two_bases(b0, b1);
    lead_of_sum(e, es, n, v, y);
    let k = choose|k: RCell| #[trigger] above(e, es, n, v, y, k);
    assert(upto(bs[t], k, j));
    let i = choose|i: int| 0 <= i <= j && i < bs[t].len() && #[trigger] bs[t][i] == k;
    basis_degree(e, es, n, b0, b1, t, i); basis_degree(e, es, n, b0, b1, t, j);
}
pub proof fn diagram_rows(d: &Cob, n: u32, es: Seq<WEdge>, cols: Map<RCell, ReductionColumn<Z2, RCell>>, ess: Set<RCell>, par: Set<(RCell, RCell)>)
    requires cob_ok(d, n, es), clear_ok(rf(spt(n, es), grounds(es)), rd(spt(n, es), grounds(es), n as u16), two_bases(d.basis.0@[0].0@, d.basis.0@[1].0@), cols, ess, par),
    ensures
        is_persistence(spt(n, es), grounds(es), n as u16, ess, par), diag_ess(spt(n, es), grounds(es), n as u16, ess), diag_par(spt(n, es), grounds(es), n as u16, par), one_partner(par),
        forall|x: PathHomCell| in_filt(spt(n, es), n as u16, grounds(es), x) ==> #[trigger] d.m_row(x),
{
    let (e, ed) = (spt(n, es), grounds(es));
    grounds_has(n, es);
    diagram_cells(e, ed, n as u16, d.basis.0@[0].0@, d.basis.0@[1].0@, cols, ess, par);
    assert forall|x: PathHomCell| in_filt(e, n as u16, ed, x) implies #[trigger] d.m_row(x) by { in_filt_row(d.matrix.filtration, ed, n as u16, x); }
}
/// an entry of the coboundary of a combination is one degree up from some cell of the combination
pub open spec fn above(e: Et, es: Set<(u16, u16)>, n: u16, v: Seq<(Z2, RCell)>, y: RCell, k: RCell) -> bool { coef(v, k) is Some && degree(y.0) == degree(k.0) + 1 }
pub proof fn lead_of_sum(e: Et, es: Set<(u16, u16)>, n: u16, v: Seq<(Z2, RCell)>, y: RCell)
    requires coef(mulcol(rd(e, es, n), v), y) is Some,
    ensures in_filt(e, n, es, y.0), exists|k: RCell| #[trigger] above(e, es, n, v, y, k),
{
    let d = rd(e, es, n);
    z2_is_field(); field_ring::<Z2>();
    mulcol_coef(d, v, y);
    mulc_source(d, v, y);
    let k = choose|k: RCell| #[trigger] feeds(d, v, y, k);
    rd_coef(e, es, n, k, y);
    row_degree::<Z2>(y.0, k.0);
    assert(above(e, es, n, v, y, k));
}
pub proof fn basis_degree(e: Et, es: Set<(u16, u16)>, n: u16, b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, t: int, k: int)
    requires listing(b0, want0(n)), listing(b1, want1(e, es, n)), 0 <= t < 2, 0 <= k < two_bases(b0, b1)[t].len(),
    ensures degree(two_bases(b0, b1)[t][k].0) == t, on_vertices(es, n) ==> in_filt(e, n, es, two_bases(b0, b1)[t][k].0),
{ if t == 0 { basis_entry(e, es, n, b0, b0.len() - 1 - k); } else { basis_entry(e, es, n, b1, b1.len() - 1 - k); } }

// ---------------------------------------------------------------- representatives
pub open spec fn pf(e: Et, es: Set<(u16, u16)>) -> spec_fn(PathHomCell) -> Time { |x: PathHomCell| ftime(e, es, x) }
pub open spec fn pd() -> spec_fn(PathHomCell) -> Seq<(Z2, PathHomCell)> { |x: PathHomCell| bd::<Z2>(x) }
/// the cell ends a bar of degree 1
pub open spec fn is_end(par: Set<(RCell, RCell)>, y: PathHomCell) -> bool { exists|x: RCell| #[trigger] par.contains((Reverse(y), x)) && degree(x.0) == 1 }
pub open spec fn wantd(e: Et, es: Set<(u16, u16)>, par: Set<(RCell, RCell)>) -> spec_fn((Time, PathHomCell)) -> bool { |w: (Time, PathHomCell)| is_end(par, w.1) && w.0 == ftime(e, es, w.1) }
pub open spec fn inv_list(e: Et, es: Set<(u16, u16)>, q: Seq<(RCell, RCell)>) -> Seq<(Time, PathHomCell)>
    decreases q.len(),
{
    if q.len() == 0 { Seq::empty() } else {
        let p = inv_list(e, es, q.drop_last());
        if degree(q.last().1.0) == 1 { p.push((ftime(e, es, q.last().0.0), q.last().0.0)) } else { p }
    }
}
/// the listed pairs without the bars of length zero
pub open spec fn kept(e: Et, es: Set<(u16, u16)>, q: Seq<(PathHomCell, PathHomCell)>) -> Seq<(PathHomCell, PathHomCell)>
    decreases q.len(),
{
    if q.len() == 0 { Seq::empty() } else {
        let p = kept(e, es, q.drop_last());
        if ftime(e, es, q.last().1) != ftime(e, es, q.last().0) { p.push(q.last()) } else { p }
    }
}
pub open spec fn is_edge(x: PathHomCell) -> bool { x is Edge }
pub open spec fn edge_of(p: (u16, u16)) -> PathHomCell { PathHomCell::Edge(p.0, p.1) }
/// the edges with non-zero coefficient, each once, the latest first
pub open spec fn rep_of(f: spec_fn(PathHomCell) -> Time, col: Seq<(Z2, PathHomCell)>, r: Seq<(u16, u16)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> rlt(f, edge_of(#[trigger] r[j]), edge_of(#[trigger] r[i]))
    &&& forall|x: PathHomCell| (#[trigger] coef(col, x)) is Some <==> exists|k: int| 0 <= k < r.len() && edge_of(#[trigger] r[k]) == x
}
pub open spec fn reps_by(reps: Seq<Vec<(u16, u16)>>, e: Et, es: Set<(u16, u16)>, a: spec_fn(PathHomCell) -> Seq<(Z2, PathHomCell)>, q: Seq<(PathHomCell, PathHomCell)>, k: int) -> bool {
    let z = kept(e, es, q.take(k));
    reps.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> rep_of(pf(e, es), a(#[trigger] z[i].1), reps[i]@)
}
/// the reduced boundary of the cells that end a bar of degree 1
pub open spec fn rep_pairs(e: Et, es: Set<(u16, u16)>, par: Set<(RCell, RCell)>, bt: Seq<(Time, PathHomCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>, ess: Set<PathHomCell>, q: Seq<(PathHomCell, PathHomCell)>) -> bool {
    &&& listing(bt, wantd(e, es, par)) && rdv_ok(pf(e, es), pd(), cells(bt), v)
    &&& diagram_of(pf(e, es), rcol(pd(), vmap(v)), cells(bt), false, ess, q.to_set()) && q.no_duplicates()
}
/// births and deaths of the bars of degree 1
pub open spec fn par1(par: Set<(RCell, RCell)>) -> spec_fn(PathHomCell, PathHomCell) -> bool { |x: PathHomCell, y: PathHomCell| par.contains((Reverse(y), Reverse(x))) && degree(x) == 1 }
pub open spec fn edge_sum(r: Seq<(u16, u16)>) -> Seq<(Z2, PathHomCell)> { r.map_values(|p: (u16, u16)| (Z2, edge_of(p))) }
/// non-zero at `y`, otherwise only at earlier cells of degree two
pub open spec fn until_on(e: Et, es: Set<(u16, u16)>, n: u16, w: Seq<(Z2, PathHomCell)>, y: PathHomCell) -> bool {
    coef(w, y) is Some && forall|z: PathHomCell| (#[trigger] coef(w, z)) is Some ==> degree(z) == 2 && in_filt(e, n, es, z) && (z == y || rlt(pf(e, es), z, y))
}
/// a cycle whose latest edge is the birth `x`, and which bounds a sum of cells of which the death `y` is the latest
pub open spec fn is_rep(e: Et, es: Set<(u16, u16)>, n: u16, x: PathHomCell, y: PathHomCell, r: Seq<(u16, u16)>) -> bool {
    &&& r.len() > 0 && edge_of(r[0]) == x
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> rlt(pf(e, es), edge_of(#[trigger] r[j]), edge_of(#[trigger] r[i]))
    &&& is_null(mulcol(pd(), edge_sum(r)))
    &&& exists|w: Seq<(Z2, PathHomCell)>| #[trigger] until_on(e, es, n, w, y) && eqv(edge_sum(r), mulcol(pd(), w))
}
/// one representative for every bar of degree 1 that has a death and a positive length
pub open spec fn reps_of(reps: Seq<Vec<(u16, u16)>>, e: Et, es: Set<(u16, u16)>, n: u16, par: Set<(RCell, RCell)>, q: Seq<(PathHomCell, PathHomCell)>) -> bool {
    &&& q.no_duplicates() && forall|x: PathHomCell, y: PathHomCell| #[trigger] q.contains((x, y)) <==> par1(par)(x, y)
    &&& reps.len() == kept(e, es, q).len() && forall|i: int| 0 <= i < reps.len() ==> is_rep(e, es, n, #[trigger] kept(e, es, q)[i].0, kept(e, es, q)[i].1, reps[i]@)
}
pub open spec fn are_reps(reps: Seq<Vec<(u16, u16)>>, e: Et, es: Set<(u16, u16)>, n: u16, par: Set<(RCell, RCell)>) -> bool {
    exists|q: Seq<(PathHomCell, PathHomCell)>| #[trigger] reps_of(reps, e, es, n, par, q)
}
pub open spec fn are_bars_reps(ess: Seq<Vec<f64>>, par: Seq<Vec<(f64, f64)>>, reps: Seq<Vec<(u16, u16)>>, n: u32, es: Seq<WEdge>) -> bool {
    bars_reps_exist(ess, par, reps, spt(n, es), grounds(es), n as u16)
}
pub open spec fn bars_reps_exist(ess: Seq<Vec<f64>>, par: Seq<Vec<(f64, f64)>>, reps: Seq<Vec<(u16, u16)>>, e: Et, ed: Set<(u16, u16)>, n: u16) -> bool {
    ess.len() == 2 && par.len() == 2 && exists|qe: Seq<RCell>, qp: Seq<(RCell, RCell)>| #[trigger] bars_reps_by(ess, par, reps, e, ed, n, qe, qp)
}
pub open spec fn bars_reps_by(ess: Seq<Vec<f64>>, par: Seq<Vec<(f64, f64)>>, reps: Seq<Vec<(u16, u16)>>, e: Et, ed: Set<(u16, u16)>, n: u16, qe: Seq<RCell>, qp: Seq<(RCell, RCell)>) -> bool {
    bars_by(ess, par, e, ed, n, qe, qp) && are_reps(reps, e, ed, n, qp.to_set())
}
pub proof fn inv_next(e: Et, es: Set<(u16, u16)>, q: Seq<(RCell, RCell)>, k: int)
    requires 0 <= k < q.len(),
    ensures inv_list(e, es, q.take(k + 1)) == (if degree(q[k].1.0) == 1 { inv_list(e, es, q.take(k)).push((ftime(e, es, q[k].0.0), q[k].0.0)) } else { inv_list(e, es, q.take(k)) }),
{ assert(q.take(k + 1).drop_last() =~= q.take(k)); }
pub proof fn reps_next(e: Et, es: Set<(u16, u16)>, q: Seq<(PathHomCell, PathHomCell)>, k: int)
    requires 0 <= k < q.len(),
    ensures kept(e, es, q.take(k + 1)) == (if ftime(e, es, q[k].1) != ftime(e, es, q[k].0) { kept(e, es, q.take(k)).push(q[k]) } else { kept(e, es, q.take(k)) }),
{ assert(q.take(k + 1).drop_last() =~= q.take(k)); }
/// no two cells of a degree have the same partner
pub open spec fn one_partner(par: Set<(RCell, RCell)>) -> bool { forall|y: RCell, x: RCell, z: RCell| #[trigger] par.contains((y, x)) && #[trigger] par.contains((y, z)) ==> x == z }
pub proof fn inv_lists(e: Et, es: Set<(u16, u16)>, n: u16, q: Seq<(RCell, RCell)>)
    requires q.no_duplicates(), one_partner(q.to_set()),
    ensures lists(inv_list(e, es, q), wantd(e, es, q.to_set())),
    decreases q.len(),
{
    reveal(lists);
    let w = wantd(e, es, q.to_set());
    if q.len() > 0 {
        let q1 = q.drop_last();
        let (y, x) = q.last();
        assert(q =~= q1.push((y, x)));
        assert forall|p: (RCell, RCell)| #![trigger q.to_set().contains(p)] #![trigger q1.to_set().contains(p)] q.to_set().contains(p) <==> (q1.to_set().contains(p) || p == (y, x)) by {
            if q.to_set().contains(p) { let k = q.index_of(p); assert(q[k] == p); if k < q1.len() { assert(q1[k] == p); } }
            if q1.to_set().contains(p) { let k = q1.index_of(p); assert(q1[k] == p); assert(q[k] == p); }
            assert(q[q.len() - 1] == (y, x));
        }
        assert(!q1.to_set().contains((y, x))) by { if q1.contains((y, x)) { let k = q1.index_of((y, x)); assert(q1[k] == (y, x)); assert(q[k] == q[q.len() - 1]); } }
        inv_lists(e, es, n, q1);
        let w1 = wantd(e, es, q1.to_set());
        let z = (ftime(e, es, y.0), y.0);
        assert(Reverse(y.0) == y);
        if degree(x.0) == 1 {
            assert(!w1(z)) by { if w1(z) { let u = choose|u: RCell| #[trigger] q1.to_set().contains((Reverse(y.0), u)) && degree(u.0) == 1; assert(q.to_set().contains((y, u))); assert(q.to_set().contains((y, x))); } }
            assert forall|t: (Time, PathHomCell)| #[trigger] w(t) <==> w1(t) || t == z by { ends_next(q.to_set(), q1.to_set(), y, x, t.1); assert(Reverse(t.1) == y ==> t.1 == y.0); }
            lists_push(inv_list(e, es, q1), w1, z, w);
        } else {
            assert forall|t: (Time, PathHomCell)| #[trigger] w(t) <==> w1(t) by { ends_next(q.to_set(), q1.to_set(), y, x, t.1); }
            assert forall|t: (Time, PathHomCell)| inv_list(e, es, q).contains(t) <==> #[trigger] w(t) by { assert(w1(t) <==> inv_list(e, es, q1).contains(t)); }
        }
    } else {
        assert forall|t: (Time, PathHomCell)| !#[trigger] w(t) by { if w(t) { let u = choose|u: RCell| #[trigger] q.to_set().contains((Reverse(t.1), u)) && degree(u.0) == 1; assert(q.contains((Reverse(t.1), u))); } }
    }
}
pub proof fn ends_next(par: Set<(RCell, RCell)>, par1: Set<(RCell, RCell)>, y: RCell, x: RCell, c: PathHomCell)
    requires forall|p: (RCell, RCell)| #![trigger par.contains(p)] #![trigger par1.contains(p)] par.contains(p) <==> (par1.contains(p) || p == (y, x)),
    ensures is_end(par, c) <==> is_end(par1, c) || (Reverse(c) == y && degree(x.0) == 1),
{
    if is_end(par, c) { let u = choose|u: RCell| #[trigger] par.contains((Reverse(c), u)) && degree(u.0) == 1; assert(par1.contains((Reverse(c), u)) || (Reverse(c), u) == (y, x)); }
    if is_end(par1, c) { let u = choose|u: RCell| #[trigger] par1.contains((Reverse(c), u)) && degree(u.0) == 1; assert(par.contains((Reverse(c), u))); }
    if Reverse(c) == y && degree(x.0) == 1 { assert(par.contains((y, x))); assert(par.contains((Reverse(c), x))); }
}
pub proof fn lists_listing(b: Seq<(Time, PathHomCell)>, w: spec_fn((Time, PathHomCell)) -> bool)
    requires lists(b, w), sorted2(b),
    ensures listing(b, w),
{ reveal(lists); assert forall|x: (Time, PathHomCell)| b.contains(x) <==> #[trigger] w(x) by {} }
/// the ends of bars are cells of degree two in the filtration; their faces are in the filtration
pub proof fn deaths_in(e: Et, es: Set<(u16, u16)>, n: u16, bt: Seq<(Time, PathHomCell)>, par: Set<(RCell, RCell)>)
    requires listing(bt, wantd(e, es, par)), diag_par(e, es, n, par),
    ensures distinct(cells(bt)), forall|k: int| 0 <= k < bt.len() ==> in_filt(e, n, es, #[trigger] cells(bt)[k]) && degree(cells(bt)[k]) == 2,
{
    let b = cells(bt);
    assert forall|k: int| 0 <= k < bt.len() implies in_filt(e, n, es, #[trigger] b[k]) && degree(b[k]) == 2 && bt[k].0 == ftime(e, es, b[k]) by {
        assert(bt.contains(bt[k]));
        assert(wantd(e, es, par)(bt[k]));
        let x = choose|x: RCell| #[trigger] par.contains((Reverse(bt[k].1), x)) && degree(x.0) == 1;
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(bt[i] != bt[j]); }
}
pub proof fn deaths_ok(t: &Table, es: Set<(u16, u16)>, n: u16, bt: Seq<(Time, PathHomCell)>, par: Set<(RCell, RCell)>)
    requires listing(bt, wantd(t.et(), es, par)), diag_par(t.et(), es, n, par), dom_ok(t, n),
    ensures
        distinct(cells(bt)),
        forall|k: int| 0 <= k < bt.len() ==> in_filt(t.et(), n, es, #[trigger] cells(bt)[k]) && degree(cells(bt)[k]) == 2,
        forall|m: GrPPHBoundary<Z2, &Table>, k: int| 0 <= k < bt.len() && m.filtration == t && m.edge_set@ == es ==> #[trigger] m.m_dom(#[trigger] cells(bt)[k]),
{
    let b = cells(bt);
    let e = t.et();
    deaths_in(e, es, n, bt, par);
    assert forall|m: GrPPHBoundary<Z2, &Table>, k: int| 0 <= k < bt.len() && m.filtration == t && m.edge_set@ == es implies #[trigger] m.m_dom(#[trigger] b[k]) by {
        let col = b[k];
        faces_in::<Z2>(e, es, n, col);
        assert forall|i: int| 0 <= i < bd::<Z2>(col).len() implies row_ok(m.filtration, m.edge_set@, (#[trigger] bd::<Z2>(col)[i]).1) by {
            assert(has_row(bd::<Z2>(col), bd::<Z2>(col)[i].1));
            in_filt_row(t, es, n, bd::<Z2>(col)[i].1);
        }
    }
}
/// what the pairs of the boundary diagram are
pub proof fn rep_rows(e: Et, es: Set<(u16, u16)>, n: u16, bt: Seq<(Time, PathHomCell)>, par: Set<(RCell, RCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>, ess: Set<PathHomCell>, par2: Set<(PathHomCell, PathHomCell)>)
    requires
        listing(bt, wantd(e, es, par)), diag_par(e, es, n, par), rdv_ok(pf(e, es), pd(), cells(bt), v),
        diagram_of(pf(e, es), rcol(pd(), vmap(v)), cells(bt), false, ess, par2),
    ensures
        forall|p: PathHomCell, x: PathHomCell| #[trigger] par2.contains((p, x)) ==> cells(bt).contains(x) && in_filt(e, n, es, p) && in_filt(e, n, es, x) && v.dom().contains(x),
        forall|x: PathHomCell| cells(bt).contains(x) ==> edge_col(#[trigger] rcol(pd(), vmap(v))(x)),
{
    let b = cells(bt);
    let a = rcol(pd(), vmap(v));
    deaths_in(e, es, n, bt, par);
    assert forall|x: PathHomCell, p: PathHomCell| b.contains(x) && (#[trigger] coef(a(x), p)) is Some implies in_filt(e, n, es, p) && is_edge(p) by {
        let j = b.index_of(x);
        let s = v[b[j]]@;
        assert(vcol_ok(s, b, j));
        z2_is_field(); field_ring::<Z2>();
        mulcol_coef(pd(), s, p);
        mulc_source(pd(), s, p);
        let k = choose|k: PathHomCell| #[trigger] feeds(pd(), s, p, k);
        supp_of_pairs(b, s, j);
        assert(upto(b, k, j));
        let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
        row_degree::<Z2>(k, p);
        faces_in::<Z2>(e, es, n, k);
        if !has_row(bd::<Z2>(k), p) { coef_absent(bd::<Z2>(k), p); }
    }
    assert forall|p: PathHomCell, x: PathHomCell| #[trigger] par2.contains((p, x)) implies b.contains(x) && in_filt(e, n, es, p) && in_filt(e, n, es, x) && v.dom().contains(x) by {
        assert(is_lead(pf(e, es), a(x), p));
        assert(coef(a(x), p) is Some);
        let j = b.index_of(x);
        assert(b[j] == x);
    }
}
pub open spec fn edge_col(s: Seq<(Z2, PathHomCell)>) -> bool { forall|p: PathHomCell| (#[trigger] coef(s, p)) is Some ==> is_edge(p) }
/// a drained column has edges only
pub proof fn drained_edges(f: spec_fn(PathHomCell) -> Time, h: Seq<ColumnEntry<Time, PathHomCell, Z2>>, col: Seq<(Z2, PathHomCell)>)
    requires fil_by(h, f), eqv(pairs(h), col), edge_col(col),
    ensures forall|s: Seq<ColumnEntry<Time, PathHomCell, Z2>>| #[trigger] decreasing(s) && eqv(pairs(s), pairs(h)) && within_key(s, h) ==> forall|i: int| 0 <= i < s.len() ==> is_edge((#[trigger] s[i]).row_index),
{
    assert forall|s: Seq<ColumnEntry<Time, PathHomCell, Z2>>| #[trigger] decreasing(s) && eqv(pairs(s), pairs(h)) && within_key(s, h) implies forall|i: int| 0 <= i < s.len() ==> is_edge((#[trigger] s[i]).row_index) by {
        drained_rows(f, h, col, s);
        assert forall|i: int| 0 <= i < s.len() implies is_edge((#[trigger] s[i]).row_index) by { assert(coef(col, s[i].row_index) is Some); }
    }
}
pub proof fn drained_rows(f: spec_fn(PathHomCell) -> Time, h: Seq<ColumnEntry<Time, PathHomCell, Z2>>, col: Seq<(Z2, PathHomCell)>, s: Seq<ColumnEntry<Time, PathHomCell, Z2>>)
    requires fil_by(h, f), eqv(pairs(h), col), decreasing(s), eqv(pairs(s), pairs(h)), within_key(s, h),
    ensures fil_by(s, f), forall|i: int| 0 <= i < s.len() ==> coef(col, (#[trigger] s[i]).row_index) is Some, forall|x: PathHomCell| (#[trigger] coef(col, x)) is Some ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).row_index == x,
{
    time_lawful(); cell_lawful(); z2_is_field(); field_ring::<Z2>();
    within_key_fil_by(s, h, f);
    fil_by_consistent(s, f);
    decreasing_distinct(s);
    assert forall|i: int| 0 <= i < s.len() implies coef(col, (#[trigger] s[i]).row_index) is Some by {
        coef_distinct(pairs(s), i);
        assert(pairs(s)[i].1 == s[i].row_index);
        assert(coef(pairs(s), s[i].row_index) == coef(pairs(h), s[i].row_index));
    }
    assert forall|x: PathHomCell| (#[trigger] coef(col, x)) is Some implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).row_index == x by {
        assert(coef(pairs(s), x) == coef(pairs(h), x));
        assert(coef(pairs(h), x) == coef(col, x));
        if !has_row(pairs(s), x) { coef_absent(pairs(s), x); }
        let i = choose|i: int| 0 <= i < pairs(s).len() && (#[trigger] pairs(s)[i]).1 == x;
        assert(s[i].row_index == x);
    }
}
pub open spec fn same_edges(s: Seq<ColumnEntry<Time, PathHomCell, Z2>>, r: Seq<(u16, u16)>) -> bool { s.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] s[i]).row_index == edge_of(r[i]) }
pub proof fn drained_rep(f: spec_fn(PathHomCell) -> Time, h: Seq<ColumnEntry<Time, PathHomCell, Z2>>, col: Seq<(Z2, PathHomCell)>, r: Seq<(u16, u16)>)
    requires fil_by(h, f), eqv(pairs(h), col),
    ensures forall|s: Seq<ColumnEntry<Time, PathHomCell, Z2>>| #[trigger] decreasing(s) && eqv(pairs(s), pairs(h)) && within_key(s, h) && same_edges(s, r) ==> rep_of(f, col, r),
{
    assert forall|s: Seq<ColumnEntry<Time, PathHomCell, Z2>>| #[trigger] decreasing(s) && eqv(pairs(s), pairs(h)) && within_key(s, h) && same_edges(s, r) implies rep_of(f, col, r) by {
        drained_rows(f, h, col, s);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies rlt(f, edge_of(#[trigger] r[j]), edge_of(#[trigger] r[i])) by { assert(entry_lt(s[j], s[i])); assert(s[i].row_index == edge_of(r[i]) && s[j].row_index == edge_of(r[j])); }
        assert forall|x: PathHomCell| (#[trigger] coef(col, x)) is Some <==> exists|k: int| 0 <= k < r.len() && edge_of(#[trigger] r[k]) == x by {
            if coef(col, x) is Some { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).row_index == x; assert(edge_of(r[i]) == x); }
            if exists|k: int| 0 <= k < r.len() && edge_of(#[trigger] r[k]) == x { let k = choose|k: int| 0 <= k < r.len() && edge_of(#[trigger] r[k]) == x; assert(s[k].row_index == x); }
        }
    }
}

// ---------------------------------------------------------------- the pairs of the boundary are those of the coboundary
pub open spec fn tc(e: Et, es: Set<(u16, u16)>, n: u16) -> spec_fn(PathHomCell) -> Seq<(Z2, PathHomCell)> { |x: PathHomCell| tcol(e, es, n, x) }
pub open spec fn uv(vr: spec_fn(RCell) -> Seq<(Z2, RCell)>) -> spec_fn(PathHomCell) -> Seq<(Z2, PathHomCell)> { |x: PathHomCell| unrev_rows(vr(Reverse(x))) }
pub open spec fn births1(e: Et, es: Set<(u16, u16)>, n: u16) -> spec_fn(PathHomCell) -> bool { |x: PathHomCell| degree(x) == 1 && in_filt(e, n, es, x) }
pub proof fn rlt_rev(e: Et, es: Set<(u16, u16)>, a: PathHomCell, b: PathHomCell)
    ensures rlt(rf(e, es), Reverse(a), Reverse(b)) == rlt(pf(e, es), b, a),
{
    time_lawful(); cell_lawful();
    let (p, q) = (ftime(e, es, a), ftime(e, es, b));
    leq_total(p, q); leq_total(q, p); leq_total(a, b); leq_total(b, a);
    assert(rf(e, es)(Reverse(a)) == Reverse(p) && rf(e, es)(Reverse(b)) == Reverse(q));
    assert(OrdSpec::cmp_spec(&Reverse(p), &Reverse(q)) == OrdSpec::cmp_spec(&q, &p));
    assert(OrdSpec::cmp_spec(&Reverse(a), &Reverse(b)) == OrdSpec::cmp_spec(&b, &a));
}
pub proof fn unrev_coef(s: Seq<(Z2, RCell)>, k: PathHomCell)
    ensures coef(unrev_rows(s), k) == coef(s, Reverse(k)), rev_rows(unrev_rows(s)) == s,
{ assert(rev_rows(unrev_rows(s)) =~= s); coef_rev(unrev_rows(s), k); }
/// the coboundary of an unreversed column
pub proof fn uv_col(e: Et, es: Set<(u16, u16)>, n: u16, vr: spec_fn(RCell) -> Seq<(Z2, RCell)>, x: PathHomCell, y: PathHomCell)
    ensures coef(mulcol(tc(e, es, n), uv(vr)(x)), y) == coef(rcol(rd(e, es, n), vr)(Reverse(x)), Reverse(y)),
{
    let s = vr(Reverse(x));
    unrev_coef(s, y);
    assert forall|k: PathHomCell| rd(e, es, n)(Reverse(k)) == rev_rows(#[trigger] tc(e, es, n)(k)) by {}
    mulcol_rev(tc(e, es, n), rd(e, es, n), unrev_rows(s));
    coef_rev(mulcol(tc(e, es, n), unrev_rows(s)), y);
}
pub proof fn birth_col(e: Et, es: Set<(u16, u16)>, n: u16, b1: Seq<(Time, PathHomCell)>, s: Seq<(Z2, RCell)>, j: int)
    requires listing(b1, want1(e, es, n)), 0 <= j < b1.len(), crate::reduce::tri(rev_seq(cells(b1)), s, j),
    ensures from_on(pf(e, es), unrev_rows(s), rev_seq(cells(b1))[j].0),
{
    let b = rev_seq(cells(b1));
    let x = b[j].0;
    let u = unrev_rows(s);
    unrev_coef(s, x);
    assert(Reverse(x) == b[j]);
    want_times(e, es, n);
    assert forall|z: PathHomCell| (#[trigger] coef(u, z)) is Some implies z == x || rlt(pf(e, es), x, z) by {
        unrev_coef(s, z);
        assert(upto(b, Reverse(z), j));
        let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == Reverse(z);
        if i < j { reversed_listing(e, es, b1, want1(e, es, n), i, j); rlt_rev(e, es, z, x); }
    }
}
pub proof fn birth_listed(e: Et, es: Set<(u16, u16)>, n: u16, b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, vr: spec_fn(RCell) -> Seq<(Z2, RCell)>, x: PathHomCell)
    requires listing(b1, want1(e, es, n)), births1(e, es, n)(x), valid(rf(e, es), rd(e, es, n), two_bases(b0, b1)[1], vr),
    ensures from_on(pf(e, es), uv(vr)(x), x), in_subs(two_bases(b0, b1), Reverse(x)),
{
    let b = rev_seq(cells(b1));
    basis_edges(e, es, n, b1, x);
    let j = b.index_of(Reverse(x));
    let bs = two_bases(b0, b1);
    assert(bs[1] == b);
    assert(bs[1][j] == Reverse(x));
    assert(crate::reduce::tri(b, vr(b[j]), j));
    birth_col(e, es, n, b1, vr(b[j]), j);
}
pub proof fn co_side(e: Et, es: Set<(u16, u16)>, n: u16, b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, cols: Map<RCell, ReductionColumn<Z2, RCell>>, ess: Set<RCell>, par: Set<(RCell, RCell)>)
    requires persistence_by(e, es, n, b0, b1, cols, ess, par), diag_par(e, es, n, par), one_partner(par),
    ensures co_reduced(pf(e, es), tc(e, es, n), births1(e, es, n), uv(vcl(rd(e, es, n), cols)), par1(par)),
{
    let (f, d, births, vr) = (pf(e, es), tc(e, es, n), births1(e, es, n), vcl(rd(e, es, n), cols));
    let (v, p1) = (uv(vr), par1(par));
    let bs = two_bases(b0, b1);
    let a = rcol(rd(e, es, n), vr);
    z2_is_field(); field_ring::<Z2>();
    assert(valid(rf(e, es), rd(e, es, n), bs[1], vr));
    assert forall|x: PathHomCell| #[trigger] births(x) implies from_on(f, v(x), x) by { birth_listed(e, es, n, b0, b1, vr, x); }
    assert forall|x: PathHomCell, y: PathHomCell| #[trigger] p1(x, y) implies births(x) && from_on(f, mulcol(d, v(x)), y) by {
        assert(par.contains((Reverse(y), Reverse(x))));
        let s = mulcol(d, v(x));
        uv_col(e, es, n, vr, x, y);
        assert(is_lead(rf(e, es), a(Reverse(x)), Reverse(y)));
        assert forall|z: PathHomCell| (#[trigger] coef(s, z)) is Some implies z == y || rlt(f, y, z) by { uv_col(e, es, n, vr, x, z); rlt_rev(e, es, z, y); }
    }
    assert forall|x: PathHomCell| births(x) && !is_null(#[trigger] mulcol(d, v(x))) implies exists|y: PathHomCell| #[trigger] p1(x, y) by {
        let z = choose|z: PathHomCell| (#[trigger] coef(mulcol(d, v(x)), z)) is Some;
        uv_col(e, es, n, vr, x, z);
        lead_exists(rf(e, es), a(Reverse(x)));
        let y = choose|y: RCell| #[trigger] is_lead(rf(e, es), a(Reverse(x)), y);
        birth_listed(e, es, n, b0, b1, vr, x);
        assert(par.contains((y, Reverse(x))));
        assert(Reverse(y.0) == y);
        assert(p1(x, y.0));
    }
    assert forall|x: PathHomCell, z: PathHomCell, y: PathHomCell| #[trigger] p1(x, y) && #[trigger] p1(z, y) implies x == z by { assert(par.contains((Reverse(y), Reverse(x))) && par.contains((Reverse(y), Reverse(z)))); }
}
pub proof fn bd_side(e: Et, es: Set<(u16, u16)>, n: u16, bt: Seq<(Time, PathHomCell)>, par: Set<(RCell, RCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>)
    requires listing(bt, wantd(e, es, par)), diag_par(e, es, n, par), rdv_ok(pf(e, es), pd(), cells(bt), v),
    ensures bd_reduced(pf(e, es), pd(), cells(bt), vmap(v), births1(e, es, n), par1(par)),
{
    let (f, b, births, p1) = (pf(e, es), cells(bt), births1(e, es, n), par1(par));
    deaths_in(e, es, n, bt, par);
    rdv_valid(f, pd(), b, v);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies rlt(f, #[trigger] b[i], #[trigger] b[j]) by {
        let l = b.len();
        reversed_listing(e, es, bt, wantd(e, es, par), l - 1 - j, l - 1 - i);
        assert(rev_seq(b)[l - 1 - j] == Reverse(b[j]) && rev_seq(b)[l - 1 - i] == Reverse(b[i]));
        rlt_rev(e, es, b[j], b[i]);
    }
    assert forall|x: PathHomCell, y: PathHomCell| #[trigger] p1(x, y) implies b.contains(y) by {
        let w = (ftime(e, es, y), y);
        assert(par.contains((Reverse(y), Reverse(x))));
        assert(wantd(e, es, par)(w));
        let k = bt.index_of(w);
        assert(b[k] == y);
    }
    assert forall|y: PathHomCell, p: PathHomCell| b.contains(y) && #[trigger] is_lead(f, rcol(pd(), vmap(v))(y), p) implies births(p) by { col_rows(e, es, n, bt, par, v, y, p); }
}
/// the rows of a reduced boundary
pub proof fn col_rows(e: Et, es: Set<(u16, u16)>, n: u16, bt: Seq<(Time, PathHomCell)>, par: Set<(RCell, RCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>, x: PathHomCell, p: PathHomCell)
    requires listing(bt, wantd(e, es, par)), diag_par(e, es, n, par), rdv_ok(pf(e, es), pd(), cells(bt), v), cells(bt).contains(x), coef(rcol(pd(), vmap(v))(x), p) is Some,
    ensures in_filt(e, n, es, p), is_edge(p), degree(p) == 1,
{
    let b = cells(bt);
    deaths_in(e, es, n, bt, par);
    let j = b.index_of(x);
    let s = v[b[j]]@;
    assert(vcol_ok(s, b, j));
    z2_is_field(); field_ring::<Z2>();
    mulcol_coef(pd(), s, p);
    mulc_source(pd(), s, p);
    let k = choose|k: PathHomCell| #[trigger] crate::lincomb::feeds(pd(), s, p, k);
    supp_of_pairs(b, s, j);
    assert(upto(b, k, j));
    let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
    row_degree::<Z2>(k, p);
    faces_in::<Z2>(e, es, n, k);
    if !has_row(bd::<Z2>(k), p) { coef_absent(bd::<Z2>(k), p); }
}
/// the coboundary is the transpose of the boundary on the deaths
pub proof fn cells_transposed(e: Et, es: Set<(u16, u16)>, n: u16, births: spec_fn(PathHomCell) -> bool, vv: spec_fn(PathHomCell) -> Seq<(Z2, PathHomCell)>, par: Set<(RCell, RCell)>, bt: Seq<(Time, PathHomCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>)
    requires diag_par(e, es, n, par), listing(bt, wantd(e, es, par)), rdv_ok(pf(e, es), pd(), cells(bt), v),
    ensures transposed(tc(e, es, n), pd(), cells(bt), vmap(v), births, vv),
{
    let (b, d) = (cells(bt), tc(e, es, n));
    deaths_in(e, es, n, bt, par);
    assert forall|p: PathHomCell, y: PathHomCell, x: PathHomCell, z: PathHomCell| births(p) && b.contains(y) && (#[trigger] coef(vv(p), x)) is Some && (#[trigger] coef(vmap(v)(y), z)) is Some implies coef(d(x), z) == coef(pd()(z), x) by {
        let j = b.index_of(y);
        let s = v[b[j]]@;
        assert(vcol_ok(s, b, j));
        supp_of_pairs(b, s, j);
        assert(upto(b, z, j));
        let k = choose|k: int| 0 <= k <= j && k < b.len() && #[trigger] b[k] == z;
        assert(in_filt(e, n, es, b[k]));
        tcol_is(e, es, n, x);
        assert(coef(tcol(e, es, n, x), z) == tr_coef::<Z2>(e, es, n, x, z));
    }
}
/// the leads of the reduced boundaries are the births
pub proof fn leads_are_births(e: Et, es: Set<(u16, u16)>, n: u16, ess0: Set<RCell>, par: Set<(RCell, RCell)>, bt: Seq<(Time, PathHomCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>)
    requires is_persistence(e, es, n, ess0, par), diag_par(e, es, n, par), one_partner(par), listing(bt, wantd(e, es, par)), rdv_ok(pf(e, es), pd(), cells(bt), v),
    ensures forall|x: PathHomCell, y: PathHomCell| cells(bt).contains(y) ==> (#[trigger] is_lead(pf(e, es), rcol(pd(), vmap(v))(y), x) <==> par1(par)(x, y)), forall|x: PathHomCell, y: PathHomCell| #[trigger] par1(par)(x, y) ==> cells(bt).contains(y),
{
    let (f, b, p1, births) = (pf(e, es), cells(bt), par1(par), births1(e, es, n));
    let (b0, b1, cols) = choose|b0: Seq<(Time, PathHomCell)>, b1: Seq<(Time, PathHomCell)>, cols: Map<RCell, ReductionColumn<Z2, RCell>>| #[trigger] persistence_by(e, es, n, b0, b1, cols, ess0, par);
    let (d, vv) = (tc(e, es, n), uv(vcl(rd(e, es, n), cols)));
    z2_is_field();
    co_side(e, es, n, b0, b1, cols, ess0, par);
    bd_side(e, es, n, bt, par, v);
    deaths_in(e, es, n, bt, par);
    cells_transposed(e, es, n, births, vv, par, bt, v);
    assert forall|x: PathHomCell, y: PathHomCell| b.contains(y) implies (#[trigger] is_lead(f, rcol(pd(), vmap(v))(y), x) <==> p1(x, y)) by {
        let j = b.index_of(y);
        theorem_dual(f, d, pd(), births, vv, p1, b, vmap(v), j);
        assert(b[j] == y);
        assert(p1(x, b[j]) <==> is_lead(f, rcol(pd(), vmap(v))(b[j]), x));
    }
}
pub proof fn kept_in(e: Et, es: Set<(u16, u16)>, q: Seq<(PathHomCell, PathHomCell)>, i: int)
    requires 0 <= i < kept(e, es, q).len(),
    ensures q.contains(kept(e, es, q)[i]),
    decreases q.len(),
{
    let p = kept(e, es, q.drop_last());
    if i < p.len() {
        kept_in(e, es, q.drop_last(), i);
        let k = q.drop_last().index_of(p[i]);
        assert(q[k] == p[i]);
    } else { assert(q[q.len() - 1] == kept(e, es, q)[i]); }
}
/// the boundary of the boundary of a sum
pub proof fn square_of_sum(m: GrPPHBoundary<Z2, &Table>, w: Seq<(Z2, PathHomCell)>)
    ensures is_null(mulcol(pd(), mulcol(pd(), w))),
{
    z2_is_field(); field_ring::<Z2>();
    let dd = |k: PathHomCell| mulcol(pd(), pd()(k));
    mulcol_assoc(pd(), pd(), w);
    assert(dmap(&m) =~= pd());
    assert forall|r: PathHomCell| (#[trigger] coef(mulcol(pd(), mulcol(pd(), w)), r)) is None by {
        assert(coef(mulcol(pd(), mulcol(pd(), w)), r) == coef(mulcol(dd, w), r));
        mulcol_coef(dd, w, r);
        assert forall|k: PathHomCell| (#[trigger] coef(w, k)) is Some implies coef(dd(k), r) is None by { theorem_boundary_squared(m, k); }
        mulc_null(dd, w, r);
    }
}
pub proof fn sum_of_rep(f: spec_fn(PathHomCell) -> Time, col: Seq<(Z2, PathHomCell)>, r: Seq<(u16, u16)>)
    requires rep_of(f, col, r),
    ensures eqv(edge_sum(r), col),
{
    z2_is_field(); field_ring::<Z2>();
    let s = edge_sum(r);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).1 != (#[trigger] s[j]).1 by { assert(rlt(f, edge_of(r[j]), edge_of(r[i]))); rlt_total(f, edge_of(r[j]), edge_of(r[i])); }
    assert forall|x: PathHomCell| #[trigger] coef(s, x) == coef(col, x) by {
        if coef(col, x) is Some {
            let k = choose|k: int| 0 <= k < r.len() && edge_of(#[trigger] r[k]) == x;
            coef_distinct(s, k);
            assert(s[k] == (Z2, x));
            assert(coef(col, x)->0 == Z2);
        } else {
            if !has_row(s, x) { coef_absent(s, x); } else {
                let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).1 == x;
                assert(edge_of(r[k]) == x);
            }
        }
    }
}
pub proof fn rep_final(m: GrPPHBoundary<Z2, &Table>, e: Et, es: Set<(u16, u16)>, n: u16, ess0: Set<RCell>, par: Set<(RCell, RCell)>, bt: Seq<(Time, PathHomCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>, x: PathHomCell, y: PathHomCell, r: Seq<(u16, u16)>)
    requires
        diag_par(e, es, n, par), listing(bt, wantd(e, es, par)), rdv_ok(pf(e, es), pd(), cells(bt), v),
        cells(bt).contains(y), is_lead(pf(e, es), rcol(pd(), vmap(v))(y), x), rep_of(pf(e, es), rcol(pd(), vmap(v))(y), r),
    ensures is_rep(e, es, n, x, y, r),
{
    let (f, b, col, w) = (pf(e, es), cells(bt), rcol(pd(), vmap(v))(y), v[y]@);
    z2_is_field(); field_ring::<Z2>();
    deaths_in(e, es, n, bt, par);
    bd_side(e, es, n, bt, par, v);
    let j = b.index_of(y);
    assert(vcol_ok(v[b[j]]@, b, j));
    supp_of_pairs(b, w, j);
    assert forall|z: PathHomCell| (#[trigger] coef(w, z)) is Some implies degree(z) == 2 && in_filt(e, n, es, z) && (z == y || rlt(f, z, y)) by {
        assert(upto(b, z, j));
        let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == z;
        if i < j { assert(rlt(f, b[i], b[j])); }
    }
    assert(until_on(e, es, n, w, y));
    sum_of_rep(f, col, r);
    square_of_sum(m, w);
    mulcol_congr(pd(), edge_sum(r), col);
    assert forall|z: PathHomCell| (#[trigger] coef(mulcol(pd(), edge_sum(r)), z)) is None by { assert(coef(mulcol(pd(), edge_sum(r)), z) == coef(mulcol(pd(), col), z)); }
    assert(coef(col, x) is Some);
    let k = choose|k: int| 0 <= k < r.len() && edge_of(#[trigger] r[k]) == x;
    if k > 0 { assert(rlt(f, edge_of(r[k]), edge_of(r[0]))); assert(coef(col, edge_of(r[0])) is Some); rlt_total(f, edge_of(r[0]), x); }
}
pub proof fn reps_final(m: GrPPHBoundary<Z2, &Table>, reps: Seq<Vec<(u16, u16)>>, e: Et, es: Set<(u16, u16)>, n: u16, ess0: Set<RCell>, par: Set<(RCell, RCell)>, bt: Seq<(Time, PathHomCell)>, v: Map<PathHomCell, Vec<(Z2, PathHomCell)>>, ess: Set<PathHomCell>, q: Seq<(PathHomCell, PathHomCell)>)
    requires
        is_persistence(e, es, n, ess0, par), diag_par(e, es, n, par), one_partner(par),
        rep_pairs(e, es, par, bt, v, ess, q), reps_by(reps, e, es, rcol(pd(), vmap(v)), q, q.len() as int),
    ensures are_reps(reps, e, es, n, par),
{
    let a = rcol(pd(), vmap(v));
    leads_are_births(e, es, n, ess0, par, bt, v);
    assert(q.take(q.len() as int) =~= q);
    assert forall|x: PathHomCell, y: PathHomCell| #[trigger] q.contains((x, y)) <==> par1(par)(x, y) by {
        assert(q.to_set().contains((x, y)) <==> cells(bt).contains(y) && is_lead(pf(e, es), a(y), x));
    }
    let z = kept(e, es, q);
    assert forall|i: int| 0 <= i < reps.len() implies is_rep(e, es, n, #[trigger] z[i].0, z[i].1, reps[i]@) by {
        kept_in(e, es, q, i);
        let (x, y) = z[i];
        assert(q.to_set().contains((x, y)));
        assert(rep_of(pf(e, es), a(z[i].1), reps[i]@));
        rep_final(m, e, es, n, ess0, par, bt, v, x, y, reps[i]@);
    }
    assert(reps_of(reps, e, es, n, par, q));
}
