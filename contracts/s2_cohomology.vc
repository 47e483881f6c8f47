@@file phlite_rips/src/cohomology.rs cohomology
@@use
use crate::prelude::*;
use crate::ints::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::simplices::*;
use crate::rips::*;
use crate::reduce::*;
use crate::homology::*;
use core::cmp::Ordering;
use std::marker::PhantomData;
use vstd::std_specs::cmp::*;
use vstd::arithmetic::power::*;
@@fn RipsCoboundary::n_points
@ret r
@spec
    ensures r == self.distances@.len(),
@@fn CoboundaryIterator::new
@ret r
@spec
    requires is_ring::<CF>(), cb_ok(base@, n_points as int),
    ensures r.ci_wf(), r.rest() == cb_from::<CF>(base@, 0, n_points as int), r.base == base,
@start
    proof { assert(0 <= base@[0] < n_points); }
@@fn <CoboundaryIterator as Iterator>::next
@ret r
@spec
    requires old(self).ci_wf(),
    ensures
        final(self).ci_wf(), final(self).base == old(self).base,
        old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
        old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
        final(self).next_vertex <= final(self).max_vertex + 1, r is Some ==> final(self).next_vertex > old(self).next_vertex, final(self).max_vertex == old(self).max_vertex,
@loop 0
    invariant
        self.ci_wf(), self.base == old(self).base, self.max_vertex == old(self).max_vertex,
        self.next_vertex >= old(self).next_vertex,
        self.rest() == old(self).rest(),
    ensures
        self.next_vertex <= self.max_vertex,
        self.insertion_position == self.base@.len() || self.base@[self.insertion_position as int] > self.next_vertex,
    decreases (self.max_vertex + 1 - self.next_vertex) + (self.base@.len() - self.insertion_position),
@loopstart 0
    proof { assert(self.base@.len() == self.base.len()); assert(self.base.len() <= usize::MAX); }
@after loop#0
    let ghost vs = self.base@;
    let ghost v = self.next_vertex;
    let ghost p = self.insertion_position as int;
    let ghost n = self.max_vertex + 1;
    proof {
        ring_exec::<CF>();
        next_step::<CF>(vs, v, p, n);
        code_seq_eq(vs.insert(p, v), n + 1);
    }
@@fn <CoboundaryIterator as Iterator>::vp_drain
@ret r
@spec
    requires self.ci_wf(),
    ensures r@ == self.rest(),
@loop 0
    invariant vp_self.ci_wf(), vp_self.max_vertex == self.max_vertex, vp_out@ + vp_self.rest() =~= self.rest(),
    ensures vp_out@ =~= self.rest(),
    decreases vp_self.max_vertex + 1 - vp_self.next_vertex,
@@inside <RipsCoboundary as MatrixOracle>
    open spec fn m_wf(&self) -> bool { is_ring::<CF>() && self.distances@.len() < usize::MAX }
    /// non-empty simplices all of whose cofacets have an index
    open spec fn m_dom(&self, col: RipsIndex) -> bool { is_code(col.0, self.distances@.len() as usize) && cb_ok(verts(col.0, self.distances@.len() as usize), self.distances@.len() as int) }
    open spec fn m_col(&self, col: RipsIndex) -> Seq<(CF, RipsIndex)> { cb_terms(verts(col.0, self.distances@.len() as usize), self.distances@.len() as int) }
    open spec fn m_row(&self, row: RipsIndex) -> bool { is_code(row.0, self.distances@.len() as usize) && row.0 != 0 }
    proof fn m_ring(&self) {}
@@fn <RipsCoboundary as MatrixOracle>::column
@start
    let ghost n = self.distances@.len() as int;
    let ghost vs = verts(col.0, n as usize);
    proof { cb_lists::<CF>(vs, 0, n); }
@closureparam 0 vpa0_0: (CF, RipsIndex, usize)
@closure 0 r: (CF, RipsIndex)
    ensures r == (vpa0_0.0, vpa0_0.1)
@end
    proof { assert(vp_ret@ =~= self.m_col(col)); }
@@inside <RipsCoboundary as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { dist_ok(self.distances@) }
    /// the diameter
    open spec fn f_val(&self, row: RipsIndex) -> NotNan<f64> { diam(verts(row.0, self.distances@.len() as usize), self.distances@) }
@@fn <RipsCoboundary as HasRowFiltration>::filtration_value
@start
    let ghost n = self.distances@.len() as int;
    let ghost vs = verts(row.0, n as usize);
    proof {
        assert(all_below(vs, n) && code(vs, n + 1) == row.0);
        diam_is_max(vs, self.distances@);
        assert forall|m: NotNan<f64>| #[trigger] is_maxpair(m, vs, self.distances@) implies m == diam(vs, self.distances@) by { maxpair_unique(m, diam(vs, self.distances@), vs, self.distances@); }
    }
@@fn <RipsCoboundary as HasRowFiltration>::column_with_filtration
@start
    let ghost n = self.distances@.len() as int;
    let ghost vs = verts(col.0, n as usize);
    let ghost ds = self.distances@;
    proof {
        cb_lists::<CF>(vs, 0, n);
        axiom_notnan_lawful::<NotNan<f64>>(); lawful_cmp::<NotNan<f64>>(); vmax_comm::<NotNan<f64>>();
        diam_is_max(vs, ds);
        assert forall|m: NotNan<f64>| #[trigger] is_maxpair(m, vs, ds) implies m == diam(vs, ds) by { maxpair_unique(m, diam(vs, ds), vs, ds); }
    }
@closureparam 0 vpa0_0: (CF, RipsIndex, usize)
@closure 0 r: ColumnEntry<NotNan<f64>, RipsIndex, CF>
    requires
        cb_item(vpa0_0, vs, 0, n), col_vertices@ == vs, self.distances@ == ds, ds.len() == n, dist_ok(ds), cb_ok(vs, n),
        max_pd_amongst_col == diam(vs, ds), n < usize::MAX,
    ensures r.coeff == vpa0_0.0, r.row_index == vpa0_0.1, r.filtration_value == self.f_val(vpa0_0.1)
@closurestart 0
    proof {
        axiom_notnan_lawful::<NotNan<f64>>(); lawful_cmp::<NotNan<f64>>(); vmax_comm::<NotNan<f64>>();
        max_seq_eq(vs, vpa0_0.2, ds);
        diam_insert(vs, vpa0_0.2, ds);
        insert_code(vs, n as usize, vpa0_0.2);
    }
@closure 1 r: NotNan<f64>
    requires *v < self.distances@.len(), inserted_vertex < self.distances@.len(), dist_ok(self.distances@)
    ensures r == dv(self.distances@, *v, inserted_vertex)
@end
    proof {
        assert(pairs(vp_ret@) =~= self.m_col(col));
    }
@@fn build_rips_coboundary_matrix
@ret r
@spec
    requires rips_ok(distances@, max_dim),
    ensures
        r.matrix.distances == distances, r.basis.0@.len() == max_dim + 1,
        forall|d: int| 0 <= d <= max_dim ==> basis_ok(#[trigger] r.basis.0@[d], d, distances@),

@@append
/// how many vertices of `vs` come before `v`
pub open spec fn pos(vs: Seq<usize>, v: usize) -> int
    decreases vs.len(),
{ if vs.len() == 0 { 0 } else { pos(vs.drop_last(), v) + (if vs.last() < v { 1int } else { 0 }) } }
pub open spec fn cofacet(vs: Seq<usize>, v: usize) -> Seq<usize> { vs.insert(pos(vs, v), v) }
/// a non-empty simplex all of whose cofacets have an index
pub open spec fn cb_ok(vs: Seq<usize>, n: int) -> bool {
    &&& simplex_on(vs, n) && vs.len() > 0 && 0 < n < usize::MAX
    &&& forall|v: usize| v < n && !vs.contains(v) ==> code(#[trigger] cofacet(vs, v), n + 1) <= usize::MAX
}
pub open spec fn cb_term<C: NonZeroCoefficient>(vs: Seq<usize>, v: usize, n: int) -> (C, RipsIndex, usize) { (alt_sgn::<C>(pos(vs, v)), RipsIndex(code(cofacet(vs, v), n + 1) as usize), v) }
/// the cofacets by the vertices from `v` on, in order
pub open spec fn cb_from<C: NonZeroCoefficient>(vs: Seq<usize>, v: int, n: int) -> Seq<(C, RipsIndex, usize)>
    decreases n - v,
{
    if v >= n { Seq::empty() } else if vs.contains(v as usize) { cb_from(vs, v + 1, n) } else { seq![cb_term::<C>(vs, v as usize, n)] + cb_from::<C>(vs, v + 1, n) }
}
/// the coboundary of a simplex: all cofacets with the sign of the position of the new vertex
pub open spec fn cb_terms<C: NonZeroCoefficient>(vs: Seq<usize>, n: int) -> Seq<(C, RipsIndex)> {
    Seq::new(cb_from::<C>(vs, 0, n).len(), |i: int| (cb_from::<C>(vs, 0, n)[i].0, cb_from::<C>(vs, 0, n)[i].1))
}
impl<CF: NonZeroCoefficient> CoboundaryIterator<CF> {
    pub open spec fn ci_wf(&self) -> bool {
        &&& is_ring::<CF>() && self.max_vertex < usize::MAX - 1 && cb_ok(self.base@, self.max_vertex + 1)
        &&& self.next_vertex <= self.max_vertex + 1 && self.insertion_position <= self.base@.len()
        &&& forall|k: int| 0 <= k < self.insertion_position ==> #[trigger] self.base@[k] < self.next_vertex
    }
    pub open spec fn rest(&self) -> Seq<(CF, RipsIndex, usize)> { cb_from::<CF>(self.base@, self.next_vertex as int, self.max_vertex + 1) }
}
pub proof fn pos_is(vs: Seq<usize>, v: usize, p: int)
    requires 0 <= p <= vs.len(), forall|k: int| 0 <= k < p ==> #[trigger] vs[k] < v, forall|i: int, j: int| 0 <= i < j < vs.len() ==> vs[i] < vs[j], p == vs.len() || vs[p] >= v,
    ensures pos(vs, v) == p,
    decreases vs.len(),
{
    if vs.len() > 0 {
        let ws = vs.drop_last();
        assert forall|k: int| 0 <= k < ws.len() implies #[trigger] ws[k] == vs[k] by {}
        if p == vs.len() { assert(vs[p - 1] < v); pos_is(ws, v, p - 1); }
        else { assert(vs.last() >= vs[p]); if p < ws.len() { assert(ws[p] == vs[p]); } pos_is(ws, v, p); }
    }
}
pub proof fn pos_props(vs: Seq<usize>, v: usize)
    requires forall|i: int, j: int| 0 <= i < j < vs.len() ==> vs[i] < vs[j],
    ensures
        0 <= pos(vs, v) <= vs.len(), forall|k: int| 0 <= k < pos(vs, v) ==> #[trigger] vs[k] < v,
        forall|k: int| pos(vs, v) <= k < vs.len() ==> #[trigger] vs[k] >= v,
    decreases vs.len(),
{
    if vs.len() > 0 {
        let ws = vs.drop_last();
        pos_props(ws, v);
        let p = pos(ws, v);
        assert forall|k: int| 0 <= k < ws.len() implies #[trigger] ws[k] == vs[k] by {}
        if vs.last() < v { if p < ws.len() { assert(ws[p] >= v); assert(vs[p] < vs[vs.len() - 1]); } }
        assert forall|k: int| 0 <= k < pos(vs, v) implies #[trigger] vs[k] < v by { if k < ws.len() { assert(ws[k] == vs[k]); } }
        assert forall|k: int| pos(vs, v) <= k < vs.len() implies #[trigger] vs[k] >= v by { if k < ws.len() { assert(ws[k] == vs[k]); } }
    }
}
pub proof fn insert_simplex(vs: Seq<usize>, n: int, v: usize, p: int)
    requires simplex_on(vs, n), v < n, !vs.contains(v), p == pos(vs, v),
    ensures 0 <= p <= vs.len(), simplex_on(vs.insert(p, v), n), vs.insert(p, v).remove(p) == vs, vs.insert(p, v)[p] == v, vs.insert(p, v).len() == vs.len() + 1,
{
    pos_props(vs, v);
    let w = vs.insert(p, v);
    assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] w[i] < n by { if i < p { assert(w[i] == vs[i]); } else if i > p { assert(w[i] == vs[i - 1]); } }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies w[i] < w[j] by {
        if j < p { assert(vs[i] < vs[j]); } else if j == p { assert(w[i] == vs[i]); }
        else if i < p { assert(vs[i] < vs[j - 1]); } else if i == p { assert(vs[j - 1] >= v); assert(vs.contains(vs[j - 1])); assert(w[j] == vs[j - 1]); }
        else { assert(vs[i - 1] < vs[j - 1]); }
    }
    assert(w.remove(p) =~= vs);
}
/// the index of a cofacet and what it decodes to
pub proof fn insert_code(vs: Seq<usize>, n: usize, v: usize)
    requires cb_ok(vs, n as int), v < n, !vs.contains(v),
    ensures
        simplex_on(cofacet(vs, v), n as int), 0 < code(cofacet(vs, v), n + 1) <= usize::MAX,
        is_code(code(cofacet(vs, v), n + 1) as usize, n), verts(code(cofacet(vs, v), n + 1) as usize, n) == cofacet(vs, v),
{
    insert_simplex(vs, n as int, v, pos(vs, v));
    verts_code(cofacet(vs, v), n);
    code_pos(cofacet(vs, v), n + 1);
}
pub open spec fn cb_item<C: NonZeroCoefficient>(t: (C, RipsIndex, usize), vs: Seq<usize>, v0: int, n: int) -> bool { v0 <= t.2 < n && !vs.contains(t.2) && t == cb_term::<C>(vs, t.2, n) && is_code(t.1.0, n as usize) && t.1.0 != 0 }
pub proof fn cb_lists<C: NonZeroCoefficient>(vs: Seq<usize>, v0: int, n: int)
    requires cb_ok(vs, n), 0 <= v0,
    ensures
        forall|i: int| 0 <= i < cb_from::<C>(vs, v0, n).len() ==> cb_item(#[trigger] cb_from::<C>(vs, v0, n)[i], vs, v0, n),
        forall|v: usize| v0 <= v < n && !vs.contains(v) ==> cb_from::<C>(vs, v0, n).contains(#[trigger] cb_term::<C>(vs, v, n)),
        forall|i: int, j: int| 0 <= i < j < cb_from::<C>(vs, v0, n).len() ==> cb_from::<C>(vs, v0, n)[i].2 < cb_from::<C>(vs, v0, n)[j].2,
    decreases n - v0,
{
    let s = cb_from::<C>(vs, v0, n);
    if v0 < n {
        cb_lists::<C>(vs, v0 + 1, n);
        let t = cb_from::<C>(vs, v0 + 1, n);
        let x = v0 as usize;
        if !vs.contains(x) {
            insert_code(vs, n as usize, x);
            assert(s == seq![cb_term::<C>(vs, x, n)] + t);
            assert forall|i: int| 0 <= i < s.len() implies cb_item(#[trigger] s[i], vs, v0, n) by { if i > 0 { assert(s[i] == t[i - 1]); } }
            assert forall|v: usize| v0 <= v < n && !vs.contains(v) implies s.contains(#[trigger] cb_term::<C>(vs, v, n)) by {
                if v == x { assert(s[0] == cb_term::<C>(vs, x, n)); }
                else { let k = choose|k: int| 0 <= k < t.len() && t[k] == cb_term::<C>(vs, v, n); assert(s[k + 1] == t[k]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i].2 < s[j].2 by { assert(s[j] == t[j - 1]); assert(cb_item(t[j - 1], vs, v0 + 1, n)); if i > 0 { assert(s[i] == t[i - 1]); } }
        } else {
            assert(s == t);
            assert forall|i: int| 0 <= i < s.len() implies cb_item(#[trigger] s[i], vs, v0, n) by { assert(cb_item(t[i], vs, v0 + 1, n)); }
            assert forall|v: usize| v0 <= v < n && !vs.contains(v) implies s.contains(#[trigger] cb_term::<C>(vs, v, n)) by { assert(v != x); }
        }
    }
}
/// the diameter of a cofacet
pub proof fn diam_insert(vs: Seq<usize>, v: usize, ds: Seq<Vec<NotNan<f64>>>)
    requires dist_ok(ds), simplex_on(vs, ds.len() as int), vs.len() > 0, v < ds.len(), !vs.contains(v),
    ensures diam(cofacet(vs, v), ds) == vmax(maxof(dists_to(vs, v, ds)), diam(vs, ds)),
{
    let w = cofacet(vs, v);
    let u = vs.push(v);
    insert_simplex(vs, ds.len() as int, v, pos(vs, v));
    insert_same(vs, v, pos(vs, v));
    assert(u.drop_last() =~= vs);
    assert(all_below(u, ds.len() as int));
    assert(all_below(w, ds.len() as int));
    diam_mono(u, w, ds);
    diam_mono(w, u, ds);
    axiom_notnan_lawful::<NotNan<f64>>();
    leq_antisym(diam(u, ds), diam(w, ds));
}
pub proof fn insert_same(vs: Seq<usize>, v: usize, p: int)
    requires 0 <= p <= vs.len(),
    ensures
        forall|i: int| 0 <= i < vs.len() + 1 ==> vs.insert(p, v).contains(#[trigger] vs.push(v)[i]),
        forall|i: int| 0 <= i < vs.len() + 1 ==> vs.push(v).contains(#[trigger] vs.insert(p, v)[i]),
{
    let w = vs.insert(p, v); let u = vs.push(v);
    assert forall|i: int| 0 <= i < u.len() implies w.contains(#[trigger] u[i]) by { if i == vs.len() { assert(w[p] == v); } else if i < p { assert(w[i] == vs[i]); } else { assert(w[i + 1] == vs[i]); } }
    assert forall|i: int| 0 <= i < w.len() implies u.contains(#[trigger] w[i]) by { if i == p { assert(u[vs.len() as int] == v); } else if i < p { assert(u[i] == w[i]); } else { assert(u[i - 1] == w[i]); } }
}
/// what one step of the iterator has to know
pub proof fn next_step<C: NonZeroCoefficient>(vs: Seq<usize>, v: usize, p: int, n: int)
    requires cb_ok(vs, n), v < n, 0 <= p <= vs.len(), forall|k: int| 0 <= k < p ==> #[trigger] vs[k] < v, p == vs.len() || vs[p] > v,
    ensures
        !vs.contains(v), pos(vs, v) == p, all_below(vs.insert(p, v), n), 0 < code(vs.insert(p, v), n + 1) <= usize::MAX,
        vs.insert(p, v) == vs.take(p) + (seq![v] + vs.skip(p)),
        vs.insert(p, v) == vs.take(p) + seq![v] + vs.skip(p),
        cb_from::<C>(vs, v as int, n).len() > 0, cb_from::<C>(vs, v as int, n)[0] == cb_term::<C>(vs, v, n), cb_from::<C>(vs, v as int, n).drop_first() == cb_from::<C>(vs, v + 1, n),
        cb_term::<C>(vs, v, n) == (alt_sgn::<C>(p), RipsIndex(code(vs.insert(p, v), n + 1) as usize), v),
{
    assert(!vs.contains(v)) by { if vs.contains(v) { let k = vs.index_of(v); assert(vs[k] == v); if k > p { assert(vs[p] < vs[k]); } } }
    pos_is(vs, v, p);
    insert_code(vs, n as usize, v);
    let tail = cb_from::<C>(vs, v + 1, n);
    assert(cb_from::<C>(vs, v as int, n) == seq![cb_term::<C>(vs, v, n)] + tail);
    assert((seq![cb_term::<C>(vs, v, n)] + tail).drop_first() =~= tail);
    assert(vs.insert(p, v) =~= vs.take(p) + (seq![v] + vs.skip(p)));
    assert(vs.insert(p, v) =~= vs.take(p) + seq![v] + vs.skip(p));
}
pub open spec fn is_cofacet(ws: Seq<usize>, vs: Seq<usize>, n: int, v: usize) -> bool { v < n && !vs.contains(v) && ws == cofacet(vs, v) }
/// the coefficient of a simplex in a coboundary
pub proof fn cb_coef<C: NonZeroCoefficient>(vs: Seq<usize>, ws: Seq<usize>, n: usize)
    requires is_ring::<C>(), cb_ok(vs, n as int), all_below(ws, n as int), code(ws, n + 1) <= usize::MAX,
    ensures
        forall|v: usize| #[trigger] is_cofacet(ws, vs, n as int, v) ==> coef(cb_terms::<C>(vs, n as int), RipsIndex(code(ws, n + 1) as usize)) == Some(alt_sgn::<C>(pos(vs, v))),
        (forall|v: usize| !#[trigger] is_cofacet(ws, vs, n as int, v)) ==> coef(cb_terms::<C>(vs, n as int), RipsIndex(code(ws, n + 1) as usize)) is None,
{
    let l = cb_from::<C>(vs, 0, n as int);
    let s = cb_terms::<C>(vs, n as int);
    let r = RipsIndex(code(ws, n + 1) as usize);
    code_nonneg(ws, n + 1);
    cb_lists::<C>(vs, 0, n as int);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).1 != (#[trigger] s[j]).1 by {
        assert(cb_item(l[i], vs, 0, n as int) && cb_item(l[j], vs, 0, n as int));
        let u = l[i].2; let v = l[j].2;
        insert_code(vs, n, u); insert_code(vs, n, v);
        if s[i].1 == s[j].1 { code_inj(cofacet(vs, u), cofacet(vs, v), n as int); cofacet_differs(vs, n as int, u, v); }
    }
    assert forall|v: usize| #[trigger] is_cofacet(ws, vs, n as int, v) implies coef(s, r) == Some(alt_sgn::<C>(pos(vs, v))) by {
        let t = cb_term::<C>(vs, v, n as int);
        assert(l.contains(t));
        let k = choose|k: int| 0 <= k < l.len() && l[k] == t;
        assert(s[k] == (t.0, t.1));
        coef_distinct(s, k);
    }
    if forall|v: usize| !#[trigger] is_cofacet(ws, vs, n as int, v) {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 != r by {
            assert(cb_item(l[i], vs, 0, n as int));
            let v = l[i].2;
            insert_code(vs, n, v);
            assert(!is_cofacet(ws, vs, n as int, v));
            if s[i].1 == r { code_inj(cofacet(vs, v), ws, n as int); }
        }
        coef_absent(s, r);
    }
}
pub proof fn cofacet_has(vs: Seq<usize>, n: int, v: usize)
    requires simplex_on(vs, n), v < n, !vs.contains(v),
    ensures forall|x: usize| #[trigger] cofacet(vs, v).contains(x) <==> x == v || vs.contains(x),
{
    let p = pos(vs, v);
    pos_props(vs, v);
    let w = cofacet(vs, v);
    assert forall|x: usize| #[trigger] w.contains(x) <==> x == v || vs.contains(x) by {
        if w.contains(x) { let i = w.index_of(x); assert(w[i] == x); if i < p { assert(vs[i] == x); } else if i > p { assert(vs[i - 1] == x); } }
        if x == v { assert(w[p] == v); }
        if vs.contains(x) { let i = vs.index_of(x); assert(vs[i] == x); if i < p { assert(w[i] == x); } else { assert(w[i + 1] == x); } }
    }
}
pub proof fn cofacet_differs(vs: Seq<usize>, n: int, u: usize, v: usize)
    requires simplex_on(vs, n), u < n, v < n, !vs.contains(u), !vs.contains(v), cofacet(vs, u) == cofacet(vs, v),
    ensures u == v,
{ cofacet_has(vs, n, u); cofacet_has(vs, n, v); assert(cofacet(vs, u).contains(u)); }
/// the coboundary is the transpose of the boundary
pub proof fn theorem_transpose<CF: NonZeroCoefficient + Invertible>(b: RipsBoundary<CF>, c: RipsCoboundary<CF>, lo: RipsIndex, hi: RipsIndex)
    requires
        b.m_wf(), c.m_wf(), b.distances == c.distances, c.m_dom(lo), b.m_dom(hi),
        simplex_on(verts(hi.0, b.distances@.len() as usize), b.distances@.len() as int),
    ensures coef(c.m_col(lo), hi) == coef(b.m_col(hi), lo),
{
    let n = b.distances@.len() as usize;
    let vs = verts(lo.0, n);
    let ws = verts(hi.0, n);
    assert(all_below(vs, n as int) && code(vs, n + 1) == lo.0);
    assert(all_below(ws, n as int) && code(ws, n + 1) == hi.0);
    cb_coef::<CF>(vs, ws, n);
    bd_coef::<CF>(ws, vs, n);
    if exists|v: usize| is_cofacet(ws, vs, n as int, v) {
        let v = choose|v: usize| is_cofacet(ws, vs, n as int, v);
        insert_simplex(vs, n as int, v, pos(vs, v));
        assert(vs == ws.remove(pos(vs, v)));
    } else {
        assert forall|i: int| 0 <= i < ws.len() && ws.len() > 1 implies vs != #[trigger] ws.remove(i) by {
            if vs == ws.remove(i) {
                let v = ws[i];
                assert forall|k: int| 0 <= k < i implies #[trigger] vs[k] < v by { assert(vs[k] == ws[k]); }
                if i < vs.len() { assert(vs[i] == ws[i + 1]); }
                assert(!vs.contains(v)) by { if vs.contains(v) { let k = vs.index_of(v); assert(vs[k] == v); if k >= i { assert(vs[k] == ws[k + 1]); } } }
                pos_is(vs, v, i);
                assert(vs.insert(i, v) =~= ws);
                assert(is_cofacet(ws, vs, n as int, v));
            }
        }
    }
}
/// adding two vertices in either order
pub proof fn two_orders(vs: Seq<usize>, n: int, u: usize, v: usize)
    requires simplex_on(vs, n), u < v < n, !vs.contains(u), !vs.contains(v),
    ensures
        cofacet(cofacet(vs, u), v) == cofacet(cofacet(vs, v), u),
        pos(cofacet(vs, u), v) == pos(vs, v) + 1, pos(cofacet(vs, v), u) == pos(vs, u),
        !cofacet(vs, u).contains(v), !cofacet(vs, v).contains(u),
{
    let p = pos(vs, u); let q = pos(vs, v);
    let wu = cofacet(vs, u); let wv = cofacet(vs, v);
    assert(!wu.contains(v) && !wv.contains(u)) by { cofacet_has(vs, n, u); cofacet_has(vs, n, v); }
    two_pos(vs, n, u, v);
    assert(wu.insert(q + 1, v) =~= wv.insert(p, u)) by { insert_twice(vs, p, q, u, v); }
}
pub proof fn insert_twice(vs: Seq<usize>, p: int, q: int, u: usize, v: usize)
    requires 0 <= p <= q <= vs.len(),
    ensures vs.insert(p, u).insert(q + 1, v) == vs.insert(q, v).insert(p, u),
{ assert(vs.insert(p, u).insert(q + 1, v) =~= vs.insert(q, v).insert(p, u)); }
pub proof fn two_pos(vs: Seq<usize>, n: int, u: usize, v: usize)
    requires simplex_on(vs, n), u < v < n, !vs.contains(u), !vs.contains(v),
    ensures 0 <= pos(vs, u) <= pos(vs, v) <= vs.len(), pos(cofacet(vs, u), v) == pos(vs, v) + 1, pos(cofacet(vs, v), u) == pos(vs, u),
{
    let p = pos(vs, u); let q = pos(vs, v);
    let wu = cofacet(vs, u); let wv = cofacet(vs, v);
    pos_props(vs, u); pos_props(vs, v);
    assert(p <= q) by { if q < p { assert(vs[q] < u); assert(vs[q] >= v); } }
    insert_simplex(vs, n, u, p); insert_simplex(vs, n, v, q);
    pos_after_lower(vs, u, v, p, q);
    pos_after_higher(vs, u, v, p, q);
}
pub proof fn pos_after_lower(vs: Seq<usize>, u: usize, v: usize, p: int, q: int)
    requires
        0 <= p <= q <= vs.len(), u < v, forall|k: int| 0 <= k < q ==> #[trigger] vs[k] < v, forall|k: int| q <= k < vs.len() ==> #[trigger] vs[k] >= v,
        forall|i: int, j: int| 0 <= i < j < vs.len() + 1 ==> vs.insert(p, u)[i] < vs.insert(p, u)[j],
    ensures pos(vs.insert(p, u), v) == q + 1,
{
    let w = vs.insert(p, u);
    assert(w.len() == vs.len() + 1);
    assert forall|k: int| 0 <= k < q + 1 implies #[trigger] w[k] < v by { if k < p { assert(w[k] == vs[k]); } else if k > p { assert(w[k] == vs[k - 1]); } }
    if q + 1 < w.len() { assert(w[q + 1] == vs[q]); }
    pos_is(w, v, q + 1);
}
pub proof fn pos_after_higher(vs: Seq<usize>, u: usize, v: usize, p: int, q: int)
    requires
        0 <= p <= q <= vs.len(), u < v, forall|k: int| 0 <= k < p ==> #[trigger] vs[k] < u, forall|k: int| p <= k < vs.len() ==> #[trigger] vs[k] >= u,
        forall|i: int, j: int| 0 <= i < j < vs.len() + 1 ==> vs.insert(q, v)[i] < vs.insert(q, v)[j],
    ensures pos(vs.insert(q, v), u) == p,
{
    let w = vs.insert(q, v);
    assert(w.len() == vs.len() + 1);
    assert forall|k: int| 0 <= k < p implies #[trigger] w[k] < u by { assert(w[k] == vs[k]); }
    if p < w.len() { if p < q { assert(w[p] == vs[p]); } }
    pos_is(w, u, p);
}
/// the two orders of adding vertices cancel
pub proof fn coboundary_pair<C: NonZeroCoefficient>(a: spec_fn(RipsIndex) -> Seq<(C, RipsIndex)>, vs: Seq<usize>, n: usize, u: usize, v: usize)
    requires
        is_ring::<C>(), cb_ok(vs, n as int), u < v < n, !vs.contains(u), !vs.contains(v),
        forall|x: usize| x < n && !vs.contains(x) ==> cb_ok(#[trigger] cofacet(vs, x), n as int),
        forall|x: usize| x < n && !vs.contains(x) ==> a((#[trigger] cb_term::<C>(vs, x, n as int)).1) == cb_terms::<C>(cofacet(vs, x), n as int),
    ensures mulc(a, cb_terms::<C>(vs, n as int), RipsIndex(code(cofacet(cofacet(vs, u), v), n + 1) as usize)) is None,
{
    let l = cb_from::<C>(vs, 0, n as int);
    let s = cb_terms::<C>(vs, n as int);
    let wu = cofacet(vs, u); let wv = cofacet(vs, v);
    let ws = cofacet(wu, v);
    let r = RipsIndex(code(ws, n + 1) as usize);
    two_orders(vs, n as int, u, v);
    insert_simplex(vs, n as int, u, pos(vs, u)); insert_simplex(vs, n as int, v, pos(vs, v));
    insert_code(wu, n, v);
    cb_lists::<C>(vs, 0, n as int);
    let tu = cb_term::<C>(vs, u, n as int); let tv = cb_term::<C>(vs, v, n as int);
    assert(l.contains(tu) && l.contains(tv));
    let p = choose|k: int| 0 <= k < l.len() && l[k] == tu;
    let q = choose|k: int| 0 <= k < l.len() && l[k] == tv;
    assert(p < q) by { if q < p { assert(l[q].2 < l[p].2); } }
    assert forall|k: int| 0 <= k < s.len() && k != p && k != q implies (#[trigger] contrib(a, s, r, k)) is None by {
        assert(cb_item(l[k], vs, 0, n as int));
        let x = l[k].2;
        assert(x != u && x != v) by { if k < p { assert(l[k].2 < l[p].2); } else { assert(l[p].2 < l[k].2); } if k < q { assert(l[k].2 < l[q].2); } else { assert(l[q].2 < l[k].2); } }
        let wx = cofacet(vs, x);
        assert forall|y: usize| !#[trigger] is_cofacet(ws, wx, n as int, y) by {
            if is_cofacet(ws, wx, n as int, y) {
                cofacet_has(vs, n as int, x); insert_simplex(vs, n as int, x, pos(vs, x)); cofacet_has(wx, n as int, y); cofacet_has(wu, n as int, v); cofacet_has(vs, n as int, u);
                assert(wx.contains(x)); assert(ws.contains(x));
            }
        }
        cb_coef::<C>(wx, ws, n);
        assert(s[k].1 == cb_term::<C>(vs, x, n as int).1);
    }
    mulc_two(a, s, r, p, q);
    assert(s[p] == (tu.0, tu.1) && s[q] == (tv.0, tv.1));
    cb_coef::<C>(wu, ws, n); cb_coef::<C>(wv, ws, n);
    assert(is_cofacet(ws, wu, n as int, v)); assert(is_cofacet(ws, wv, n as int, u));
    let i = pos(vs, u); let j = pos(vs, v);
    assert(contrib(a, s, r, p) == smul(Some(alt_sgn::<C>(j + 1)), Some(alt_sgn::<C>(i))));
    assert(contrib(a, s, r, q) == smul(Some(alt_sgn::<C>(i)), Some(alt_sgn::<C>(j))));
    smul_comm(Some(alt_sgn::<C>(j + 1)), Some(alt_sgn::<C>(i)));
    alt_sgn_cases::<C>(i); alt_sgn_cases::<C>(j);
    signs_cancel::<C>(alt_sgn::<C>(i));
}
pub open spec fn twice_added(vs: Seq<usize>, n: int, r: RipsIndex, u: usize, v: usize) -> bool { u < n && !vs.contains(u) && v < n && !cofacet(vs, u).contains(v) && r == RipsIndex(code(cofacet(cofacet(vs, u), v), n + 1) as usize) }
/// the coboundary of a coboundary is zero
pub proof fn theorem_coboundary_squared<CF: NonZeroCoefficient + Invertible>(m: RipsCoboundary<CF>, col: RipsIndex)
    requires m.m_wf(), m.m_dom(col), forall|i: int| 0 <= i < m.m_col(col).len() ==> m.m_dom((#[trigger] m.m_col(col)[i]).1),
    ensures is_null(mulcol(dmap(&m), m.m_col(col))),
{
    let n = m.distances@.len() as usize;
    let vs = verts(col.0, n);
    let s = m.m_col(col);
    let l = cb_from::<CF>(vs, 0, n as int);
    let a = dmap(&m);
    assert(all_below(vs, n as int) && code(vs, n + 1) == col.0);
    cb_lists::<CF>(vs, 0, n as int);
    assert forall|x: usize| x < n && !vs.contains(x) implies cb_ok(#[trigger] cofacet(vs, x), n as int) && a(cb_term::<CF>(vs, x, n as int).1) == cb_terms::<CF>(cofacet(vs, x), n as int) by {
        let t = cb_term::<CF>(vs, x, n as int);
        assert(l.contains(t));
        let k = choose|k: int| 0 <= k < l.len() && l[k] == t;
        assert(s[k] == (t.0, t.1));
        insert_code(vs, n, x);
        assert(m.m_dom(s[k].1));
    }
    assert forall|r: RipsIndex| (#[trigger] coef(mulcol(a, s), r)) is None by {
        mulcol_coef(a, s, r);
        if exists|u: usize, v: usize| #[trigger] twice_added(vs, n as int, r, u, v) {
            let (u, v) = choose|u: usize, v: usize| #[trigger] twice_added(vs, n as int, r, u, v);
            cofacet_has(vs, n as int, u);
            if u < v { two_orders(vs, n as int, u, v); coboundary_pair::<CF>(a, vs, n, u, v); } else { two_orders(vs, n as int, v, u); coboundary_pair::<CF>(a, vs, n, v, u); }
        } else {
            assert forall|k: int| 0 <= k < s.len() implies (#[trigger] contrib(a, s, r, k)) is None by {
                assert(cb_item(l[k], vs, 0, n as int));
                let x = l[k].2;
                let wx = cofacet(vs, x);
                let g = cb_from::<CF>(wx, 0, n as int);
                let t = cb_terms::<CF>(wx, n as int);
                cb_lists::<CF>(wx, 0, n as int);
                assert(s[k].1 == cb_term::<CF>(vs, x, n as int).1);
                assert(a(s[k].1) == t);
                assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).1 != r by { assert(cb_item(g[i], wx, 0, n as int)); assert(!twice_added(vs, n as int, r, x, g[i].2)); }
                coef_absent(t, r);
            }
            mulc_none(a, s, r);
        }
    }
}
/// a simplex never appears after its cofacets
pub proof fn theorem_cofacets_later<CF: NonZeroCoefficient + Invertible>(m: RipsCoboundary<CF>, col: RipsIndex)
    requires m.m_wf(), m.f_wf(), m.m_dom(col),
    ensures forall|i: int| 0 <= i < m.m_col(col).len() ==> leq(m.f_val(col), m.f_val((#[trigger] m.m_col(col)[i]).1)),
{
    let n = m.distances@.len() as usize;
    let vs = verts(col.0, n);
    let l = cb_from::<CF>(vs, 0, n as int);
    assert(all_below(vs, n as int) && code(vs, n + 1) == col.0);
    cb_lists::<CF>(vs, 0, n as int);
    assert forall|i: int| 0 <= i < m.m_col(col).len() implies leq(m.f_val(col), m.f_val((#[trigger] m.m_col(col)[i]).1)) by {
        assert(cb_item(l[i], vs, 0, n as int));
        let x = l[i].2;
        insert_code(vs, n, x);
        cofacet_has(vs, n as int, x);
        let w = cofacet(vs, x);
        assert forall|k: int| 0 <= k < vs.len() implies w.contains(#[trigger] vs[k]) by { assert(vs.contains(vs[k])); }
        diam_mono(vs, w, m.distances@);
    }
}
