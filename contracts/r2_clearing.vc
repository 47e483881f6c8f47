@@file phlite/src/reduction/clearing.rs clearing
@@cowfield reduction_columns
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::heap::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::combinators::*;
use crate::implementors::*;
use crate::reduction::*;
use crate::reduce::*;
use crate::standard::*;
use crate::adaptors::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
@@attr ClearedReductionMatrix :: #[verifier::reject_recursive_types(M)]
@@attr CRMBuilder :: #[verifier::reject_recursive_types(RowT)]  #[verifier::reject_recursive_types(CF)]
@@ghostfield CRMBuilder vp_os: Seq<usize> = dimension_order.items()
@@ghostfield CRMBuilder vp_n: int = 0int

@@fn ClearedReductionMatrix::build_from_ref
@ret r
@spec
    ensures r.boundary == boundary, r.reduction_columns.cv() == *reduction_columns,
@@fn ClearedReductionMatrix::build_from_owned
@ret r
@spec
    ensures r.boundary == boundary, r.reduction_columns.cv() == reduction_columns,
@@fn ClearedReductionMatrix::col_is_cycle
@ret r
@spec
    requires
        self.m_wf(), self.boundary.f_wf(), self.m_dom(col), forall|x: M::RowT| #[trigger] self.m_at(col, x) ==> self.boundary.m_dom(x),
        is_clr(self.reduction_columns.cv()@, col) ==> is_null(mulcol(dmap(&self.boundary), self.m_col(col))),
    ensures
        r == is_null(mulcol(dmap(&self.boundary), self.m_col(col))),
@start
    proof { self.m_ring(); M::RowT::lawful_elem(); }
@before match#0
    proof {
        assert(dmap(&&self.boundary) =~= dmap(&self.boundary));
        let m = mulcol(dmap(&self.boundary), self.m_col(col));
        assert forall|h: Seq<ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>>| #[trigger] eqv(pairs(h), m) implies vanishes(h) == is_null(m) by {
            if vanishes(h) { assert forall|x: M::RowT| (#[trigger] coef(m, x)) is None by { assert(coef(pairs(h), x) == coef(m, x)); assert(coef(pairs(h), x) is None); } }
            if is_null(m) { assert forall|x: M::RowT| (#[trigger] coef(pairs(h), x)) is None by { assert(coef(pairs(h), x) == coef(m, x)); assert(coef(m, x) is None); } }
        }
        assert forall|h: Seq<ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>>, e: ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>| #[trigger] is_pivot(h, e) implies !vanishes(h) by { assert(coef(pairs(h), e.row_index) is Some); }
    }

@@inside <ClearedReductionMatrix as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.boundary.m_wf() && rc_wf(self.reduction_columns.cv()@) && rc_rows(&self.boundary, self.reduction_columns.cv()@) }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.reduction_columns.cv()@.dom().contains(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { rc_col(dmap(&self.boundary), self.reduction_columns.cv()@, col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.boundary.m_dom(row) || self.boundary.m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool {
        let cols = self.reduction_columns.cv()@;
        if is_clr(cols, col) { clr_row(&self.boundary, rc_red(cols, clr_by(cols, col)), row) } else { has_row(rc_red(cols, col), row) }
    }
    proof fn m_ring(&self) { self.boundary.m_ring(); }
@@fn <ClearedReductionMatrix as MatrixOracle>::column
@ret r
@spec
    decreases (if is_clr(self.reduction_columns.cv()@, col) { 1nat } else { 0nat }),
@start
    let ghost cols = self.reduction_columns.cv()@;
    let ghost col0 = col;
    proof { self.m_ring(); ring_exec::<M::CoefficientField>(); axiom_clone_coef::<M::CoefficientField>(); M::RowT::lawful_elem(); axiom_clone_lawful::<M::RowT>(); lawful_clone::<M::RowT>(); axiom_clone_pair::<M::CoefficientField, M::RowT>(); }
@closureparam 0 vpa0_0: (M::CoefficientField, M::RowT)
@closure 0 r: It<(M::CoefficientField, M::RowT)>
    requires self.boundary.m_dom(vpa0_0.1)
    ensures
        is_scaled(r@, self.boundary.m_col(vpa0_0.1), vpa0_0.0),
        forall|i: int| 0 <= i < r@.len() ==> self.boundary.m_row((#[trigger] r@[i]).1) && self.boundary.m_at(vpa0_0.1, r@[i].1)
@closurestart 0
    proof { ring_exec::<M::CoefficientField>(); }
@closureend 0
    proof {
        assert forall|u: Seq<(M::CoefficientField, M::RowT)>| #[trigger] eqv(u, self.boundary.m_col(vpa0_0.1)) && u.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < u.len() ==> (#[trigger] vp_ret@[i]) == (<M::CoefficientField as MulSpec<M::CoefficientField>>::mul_spec(u[i].0, vpa0_0.0), u[i].1)) implies
            is_scaled(vp_ret@, self.boundary.m_col(vpa0_0.1), vpa0_0.0) by { scaled_by_terms(vp_ret@, u, self.boundary.m_col(vpa0_0.1), vpa0_0.0); }
    }
@closureparam 1 vpa1_0: (M::CoefficientField, M::RowT)
@closure 1 r: (M::CoefficientField, M::RowT)
    requires is_ring::<M::CoefficientField>()
    ensures r == (<M::CoefficientField as MulSpec<M::CoefficientField>>::mul_spec(vpa1_0.0, vpa0_0.0), vpa1_0.1)
@closurestart 1
    proof { ring_exec::<M::CoefficientField>(); }
@end
    proof {
        let a = dmap(&self.boundary);
        if is_clr(cols, col0) {
            let t = rc_red(cols, clr_by(cols, col0));
            assert forall|s: Seq<(M::CoefficientField, M::ColT)>, parts: Seq<Seq<(M::CoefficientField, M::RowT)>>|
                #![trigger eqv(s, t), flat(parts)]
                eqv(s, t) && parts.len() == s.len() && vp_ret@ == flat(parts)
                && (forall|i: int| 0 <= i < s.len() ==> is_scaled(#[trigger] parts[i], self.boundary.m_col(s[i].1), s[i].0)) implies eqv(vp_ret@, self.m_col(col0)) by { flat_scaled(a, s, parts, t); }
            let y = clr_by(cols, col0);
            assert(is_red(cols, y));
            assert forall|s: Seq<(M::CoefficientField, M::ColT)>, parts: Seq<Seq<(M::CoefficientField, M::RowT)>>|
                #![trigger eqv(s, t), flat(parts)]
                vp_ret@ == flat(parts) && parts.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> self.m_at(y, (#[trigger] s[i]).1))
                && (forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() ==> self.boundary.m_row((#[trigger] parts[i][j]).1) && self.boundary.m_at(s[i].1, parts[i][j].1)) implies
                (forall|i: int| 0 <= i < vp_ret@.len() ==> self.m_row((#[trigger] vp_ret@[i]).1) && self.m_at(col0, vp_ret@[i].1)) by {
                let p = |x: (M::CoefficientField, M::RowT)| self.boundary.m_row(x.1) && clr_row(&self.boundary, t, x.1);
                assert forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() implies p(#[trigger] parts[i][j]) by { assert(self.m_at(y, s[i].1)); assert(has_row(t, s[i].1)); }
                flat_all(parts, p);
                assert forall|i: int| 0 <= i < vp_ret@.len() implies self.m_row((#[trigger] vp_ret@[i]).1) && self.m_at(col0, vp_ret@[i].1) by { assert(p(flat(parts)[i])); }
            }
        } else {
            assert(vp_ret@ =~= rc_red(cols, col0));
            assert(is_red(cols, col0));
            assert forall|i: int| 0 <= i < vp_ret@.len() implies self.m_row((#[trigger] vp_ret@[i]).1) && self.m_at(col0, vp_ret@[i].1) by { assert(has_row(rc_red(cols, col0), vp_ret@[i].1)); if i < red_vec(cols, col0).len() { assert(self.boundary.m_dom(red_vec(cols, col0)[i].1)); } }
        }
    }
@@inside <ClearedReductionMatrix as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.boundary.c_wf() }
    open spec fn m_basis(&self) -> Self::BasisT { self.boundary.m_basis() }
@@fn <ClearedReductionMatrix as HasColBasis>::basis

@@fn CRMBuilder::init
@ret r
@spec
    requires bd_ok(&boundary, dimension_order.items()),
    ensures
        r.boundary == boundary, r.vp_os@ == dimension_order.items(), between(&r),
        r.dimension_order == dimension_order,
@end
    proof {
        boundary.m_ring();
        cl_init::<M::FiltrationT, M::CoefficientField, M::RowT>(fmap(&boundary), dmap(&boundary), subs(&boundary, vp_ret.vp_os@));
        assert(vp_ret.vp_os@.skip(0) =~= vp_ret.vp_os@);
    }
@@fn CRMBuilder::reduce_column
@spec
    requires
        crm_inv(self, self.vp_n@), 0 <= self.vp_n@ < bd_sub(self).len(),
        ctx(fmap(&self.boundary), dmap(&self.boundary), bd_sub(self), self.vp_n@, self.reduction_columns@, low_inverse@),
        cred_inv(fmap(&self.boundary), dmap(&self.boundary), bd_sub(self), self.vp_n@, old(r_i).heap.seq(), old(v_i).heap.seq()),
        rows_in(&self.boundary, old(v_i).heap.seq()),
    ensures
        cred_inv(fmap(&self.boundary), dmap(&self.boundary), bd_sub(self), self.vp_n@, final(r_i).heap.seq(), final(v_i).heap.seq()),
        cl_reduced(fmap(&self.boundary), final(r_i).heap.seq(), low_inverse@),
        rows_in(&self.boundary, final(v_i).heap.seq()),
@start
    let ghost (f, d, b, n) = (fmap(&self.boundary), dmap(&self.boundary), bd_sub(self), self.vp_n@);
    let ghost (cols, low) = (self.reduction_columns@, low_inverse@);
    proof { self.boundary.m_ring(); M::RowT::lawful_elem(); M::FiltrationT::lawful_filt(); unit_lawful(); cl_distinct(f, d, subs(&self.boundary, self.vp_os@), b_t(self)); }
@loop 0
    invariant
        crm_inv(self, n), n == self.vp_n@, 0 <= n < b.len(), b == bd_sub(self), f == fmap(&self.boundary), d == dmap(&self.boundary), cols == self.reduction_columns@, low == low_inverse@, distinct(b),
        lawful::<M::RowT>(), lawful::<M::FiltrationT>(), lawful::<Unit>(), is_ring::<M::CoefficientField>(),
        ctx(f, d, b, n, cols, low), cred_inv(f, d, b, n, r_i.heap.seq(), v_i.heap.seq()), rows_in(&self.boundary, v_i.heap.seq()),
    ensures
        false,
    decreases count_dom(f, pairs(r_i.heap.seq()), rows_upto(d, b, n + 1)),
@loopstart 0
    let ghost (r0, v0) = (r_i.heap.seq(), v_i.heap.seq());
    proof { lawful_clone::<M::RowT>(); field_ring::<M::CoefficientField>(); ring_exec::<M::CoefficientField>(); cl_facts(f, d, b, n, r0, v0); ctx_facts(f, d, b, n, cols, low); }
@before return#0
    proof { cl_peeked(f, d, b, n, r0, r_i.heap.seq(), v0); }
@after clone_pivot
    let ghost r2 = r_i.heap.seq();
    proof { cl_peeked(f, d, b, n, r0, r2, v0); }
@before add_entries#0
    let ghost vj = rc_red(cols, *j_basis_element);
    let ghost rj = mulcol(d, vj);
    proof {
        assert(dmap(&r_matrix.left) =~= d);
        assert forall|es: Seq<ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>>, ms: Seq<ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>>|
            #![trigger eqv(pairs(es), rj), r2 + ms]
            eqv(pairs(es), rj) && fil_by(es, f) && scaled_entries(ms, es, col_multiple) implies is_added(pairs(r2 + ms), pairs(r2), rj, col_multiple) && fil_by(r2 + ms, f) by { lemma_added(r2, es, ms, rj, col_multiple); }
        assert forall|es: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>, ms: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>|
            #![trigger eqv(pairs(es), vj), v0 + ms]
            eqv(pairs(es), vj) && scaled_entries(ms, es, col_multiple) implies is_added(pairs(v0 + ms), pairs(v0), vj, col_multiple) by { lemma_added(v0, es, ms, vj, col_multiple); }
    }
@after add_entries#1
    proof { cl_step(f, d, b, n, cols, low, r2, v0, r_i.heap.seq(), v_i.heap.seq(), pivot_entry); count_congr(f, pairs(r2), pairs(r0), rows_upto(d, b, n + 1)); }
@closureparam 0 vp_e: ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>
@closure 0 r: ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>
    requires is_ring::<M::CoefficientField>()
    ensures scaled_entry(r, vp_e, col_multiple)
@closurestart 0
    proof { ring_exec::<M::CoefficientField>(); }
@closureparam 1 vp_e: ColumnEntry<Unit, M::RowT, M::CoefficientField>
@closure 1 r: ColumnEntry<Unit, M::RowT, M::CoefficientField>
    requires is_ring::<M::CoefficientField>()
    ensures scaled_entry(r, vp_e, col_multiple)
@closurestart 1
    proof { ring_exec::<M::CoefficientField>(); }
@@fn CRMBuilder::save_column
@spec
    requires
        crm_inv(old(self), old(self).vp_n@), 0 <= old(self).vp_n@ < bd_sub(old(self)).len(), basis_element == bd_sub(old(self))[old(self).vp_n@],
        !old(self).reduction_columns@.dom().contains(basis_element),
        ctx(fmap(&old(self).boundary), dmap(&old(self).boundary), bd_sub(old(self)), old(self).vp_n@, old(self).reduction_columns@, old(low_inverse)@),
        cred_inv(fmap(&old(self).boundary), dmap(&old(self).boundary), bd_sub(old(self)), old(self).vp_n@, r_i.heap.seq(), v_i.heap.seq()),
        cl_reduced(fmap(&old(self).boundary), r_i.heap.seq(), old(low_inverse)@),
        rows_in(&old(self).boundary, v_i.heap.seq()),
    ensures
        same_builder(old(self), final(self)), final(self).vp_n == old(self).vp_n,
        crm_inv(final(self), old(self).vp_n@ + 1),
        ctx(fmap(&old(self).boundary), dmap(&old(self).boundary), bd_sub(old(self)), old(self).vp_n@ + 1, final(self).reduction_columns@, final(low_inverse)@),
@start
    let ghost (f, d, bs, t, n) = (fmap(&self.boundary), dmap(&self.boundary), subs(&self.boundary, self.vp_os@), b_t(self), self.vp_n@);
    let ghost x = basis_element;
    let ghost (r, v) = (r_i.heap.seq(), v_i.heap.seq());
    let ghost (cols, low, ess, par) = (self.reduction_columns@, low_inverse@, self.diagram.essential@, self.diagram.pairings@);
    let ghost self0 = *self;
    proof {
        self.boundary.m_ring(); M::RowT::lawful_elem(); lawful_clone::<M::RowT>(); M::FiltrationT::lawful_filt(); unit_lawful(); axiom_clone_entry::<M::FiltrationT, M::RowT, M::CoefficientField>();
        cl_facts(f, d, bs[t], n, r, v);
    }
@closureparam 0 vp_e: ColumnEntry<Unit, M::RowT, M::CoefficientField>
@closure 0 r: (M::CoefficientField, M::RowT)
    ensures r == (vp_e.coeff, vp_e.row_index)
@end
    proof {
        let cols2 = self.reduction_columns@;
        let nc = cols2[x]->Reduced_0;
        assert forall|es: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>| #[trigger] decreasing(es) && eqv(pairs(es), pairs(v)) && within_key(es, v) && es.len() == nc@.len()
            && (forall|i: int| 0 <= i < nc@.len() ==> (#[trigger] nc@[i]) == (es[i].coeff, es[i].row_index))
            implies eqv(nc@, pairs(v)) && rows_in2(&self.boundary, nc@) by { assert(nc@ =~= pairs(es)); key_rows(&self.boundary, es, v); }
        cl_save(f, d, bs, t, n, r, v, nc, cols, cols2, low, low_inverse@, ess, self.diagram.essential@, par, self.diagram.pairings@);
        cl_wf(f, d, bs, t, n + 1, cols2, self.diagram.essential@, self.diagram.pairings@);
        assert(in_subs(bs, x)) by { assert(bs[t][n] == x); }
        assert forall|y: M::ColT| #[trigger] is_red(cols2, y) implies self.boundary.m_dom(y) by { if y != x { assert(is_red(cols, y)); } }
        assert forall|y: M::ColT, i: int| is_red(cols2, y) && 0 <= i < red_vec(cols2, y).len() implies self.boundary.m_dom((#[trigger] red_vec(cols2, y)[i]).1) by {
            if y == x { assert(nc@[i] == red_vec(cols2, y)[i]); } else { assert(is_red(cols, y)); assert(red_vec(cols, y)[i] == red_vec(cols2, y)[i]); }
        }
    }
@@fn CRMBuilder::reduce_dimension
@spec
    requires crm_inv(old(self), 0), old(self).vp_os@[b_t(old(self))] == dim,
    ensures
        same_builder(old(self), final(self)),
        crm_inv(final(self), bd_sub(old(self)).len() as int),
@start
    let ghost (f, d, bs, t) = (fmap(&self.boundary), dmap(&self.boundary), subs(&self.boundary, self.vp_os@), b_t(self));
    let ghost b = bs[t];
    let ghost self0 = *self;
    proof { self.boundary.m_ring(); M::RowT::lawful_elem(); lawful_clone::<M::RowT>(); }
@before loop#0
    proof { ctx_start::<M::FiltrationT, M::CoefficientField, M::RowT>(f, d, b, self.reduction_columns@); }
@loop 0
    invariant
        same_builder(&self0, self), f == fmap(&self.boundary), d == dmap(&self.boundary), bs == subs(&self.boundary, self.vp_os@), t == b_t(self), b == bs[t], b == bd_sub(self),
        self.vp_os@[t] == dim, basis_size == b.len(),
        lawful::<M::RowT>(), is_ring::<M::CoefficientField>(),
        crm_inv(self, vpit0.index@), ctx(f, d, b, vpit0.index@, self.reduction_columns@, low_inverse@),
@loopstart 0
    let ghost n = vpit0.index@;
    proof {
        lawful_clone::<M::RowT>();
        assert(b[n] == bs[t][n]); assert(in_subs(bs, b[n]));
    }
@before continue#0
    proof { cl_skip(f, d, bs, t, n, self.reduction_columns@, low_inverse@, self.diagram.essential@, self.diagram.pairings@); }
@before reduce_column
    proof { self.vp_n = Ghost(n); cl_start(f, d, b, n, r_i.heap.seq(), v_i.heap.seq()); }
@@fn CRMBuilder::reduce_all_dimension
@spec
    requires between(old(self)),
    ensures
        final(self).boundary == old(self).boundary, final(self).vp_os == old(self).vp_os, between(final(self)), final(self).dimension_order.items().len() == 0,
@loop 0
    invariant
        self.boundary == old(self).boundary, self.vp_os == old(self).vp_os, between(self),
    ensures
        self.dimension_order.items().len() == 0,
    decreases self.dimension_order.items().len(),
@loopstart 0
    proof {
        let k = self.vp_os@.len() - self.dimension_order.items().len() - 1;
        assert(self.vp_os@.skip(k).drop_first() =~= self.vp_os@.skip(k + 1));
        assert(self.vp_os@.skip(k)[0] == self.vp_os@[k]);
        assert(self.vp_os@[k] == dim);
    }
@loopend 0
    proof {
        cl_next(fmap(&self.boundary), dmap(&self.boundary), subs(&self.boundary, self.vp_os@), b_t(self), self.reduction_columns@, self.diagram.essential@, self.diagram.pairings@);
    }
@@fn ClearedReductionMatrix::build_with_diagram
@ret r
@spec
    requires bd_ok(&boundary, dimension_order.items()),
    ensures
        r.0.boundary == boundary, r.0.m_wf(),
        clear_ok(fmap(&boundary), dmap(&boundary), subs(&boundary, dimension_order.items()), r.0.reduction_columns.cv()@, r.1.essential@, r.1.pairings@),
@start
    proof { boundary.m_ring(); }
@end
    proof {
        cl_final(fmap(&boundary), dmap(&boundary), subs(&boundary, dimension_order.items()), vp_ret.0.reduction_columns.cv()@, vp_ret.1.essential@, vp_ret.1.pairings@);
    }

@@append
/// a row that some column of the combination `v` may mention
pub open spec fn clr_row<M: MatrixOracle>(m: &M, v: Seq<(M::CoefficientField, M::ColT)>, row: M::RowT) -> bool { exists|k: M::ColT| has_row(v, k) && #[trigger] m.m_at(k, row) }
pub open spec fn is_red<C, K>(cols: Map<K, ReductionColumn<C, K>>, x: K) -> bool { cols.dom().contains(x) && cols[x] is Reduced }
pub open spec fn is_clr<C, K>(cols: Map<K, ReductionColumn<C, K>>, x: K) -> bool { cols.dom().contains(x) && cols[x] is Cleared }
/// the column whose reduction cleared `x`
pub open spec fn clr_by<C, K>(cols: Map<K, ReductionColumn<C, K>>, x: K) -> K { cols[x]->Cleared_0 }
pub open spec fn red_vec<C, K>(cols: Map<K, ReductionColumn<C, K>>, x: K) -> Seq<(C, K)> { cols[x]->Reduced_0@ }
/// a reduced column of V: the stored part and the unit diagonal
pub open spec fn rc_red<C: NonZeroCoefficient, K>(cols: Map<K, ReductionColumn<C, K>>, x: K) -> Seq<(C, K)> { red_vec(cols, x).push((C::one_spec(), x)) }
/// a column of V
pub open spec fn rc_col<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, cols: Map<K, ReductionColumn<C, K>>, x: K) -> Seq<(C, K)> {
    if is_clr(cols, x) { mulcol(d, rc_red(cols, clr_by(cols, x))) } else { rc_red(cols, x) }
}
pub open spec fn rc_wf<C, K>(cols: Map<K, ReductionColumn<C, K>>) -> bool { forall|x: K| #[trigger] is_clr(cols, x) ==> is_red(cols, clr_by(cols, x)) }
pub open spec fn rc_rows<M: MatrixOracle + SquareMatrix>(m: &M, cols: Map<M::ColT, ReductionColumn<M::CoefficientField, M::ColT>>) -> bool {
    &&& forall|x: M::ColT| #[trigger] is_red(cols, x) ==> m.m_dom(x)
    &&& forall|x: M::ColT, i: int| is_red(cols, x) && 0 <= i < red_vec(cols, x).len() ==> m.m_dom((#[trigger] red_vec(cols, x)[i]).1)
}

/// everything the clearing algorithm needs to know about the matrix
pub open spec fn bd_ok<M: MatrixOracle + SquareMatrix + HasRowFiltration + HasColBasis>(m: &M, os: Seq<usize>) -> bool
    where <M as HasColBasis>::BasisT: SplitByDimension, M::CoefficientField: Invertible
{
    &&& m.m_wf() && m.f_wf() && m.c_wf() && is_field::<M::CoefficientField>()
    &&& forall|t: int| 0 <= t < os.len() ==> #[trigger] os[t] < m.m_basis().b_dims()
    &&& forall|x: M::ColT| #[trigger] in_subs(subs(m, os), x) ==> m.m_dom(x)
    &&& cl_cx(fmap(m), dmap(m), subs(m, os))
}
/// the degree being reduced
pub open spec fn b_t<M, D: VNext<usize>, R, C>(s: &CRMBuilder<M, D, R, C>) -> int { s.vp_os@.len() - s.dimension_order.items().len() - 1 }
pub open spec fn bd_sub<M: MatrixOracle + HasColBasis, D: VNext<usize>, R, C>(s: &CRMBuilder<M, D, R, C>) -> Seq<M::ColT> where <M as HasColBasis>::BasisT: SplitByDimension { subs(&s.boundary, s.vp_os@)[b_t(s)] }
pub open spec fn same_builder<M, D: VNext<usize>, R, C>(s: &CRMBuilder<M, D, R, C>, s2: &CRMBuilder<M, D, R, C>) -> bool {
    s2.boundary == s.boundary && s2.dimension_order == s.dimension_order && s2.vp_os == s.vp_os
}
/// the builder after `n` columns of degree `b_t`
pub open spec fn crm_inv<M: MatrixOracle + SquareMatrix + HasRowFiltration + HasColBasis, D: VNext<usize>>(s: &CRMBuilder<M, D, M::RowT, M::CoefficientField>, n: int) -> bool
    where <M as HasColBasis>::BasisT: SplitByDimension, M::CoefficientField: Invertible
{
    &&& bd_ok(&s.boundary, s.vp_os@)
    &&& 0 <= b_t(s) < s.vp_os@.len()
    &&& rc_wf(s.reduction_columns@) && rc_rows(&s.boundary, s.reduction_columns@)
    &&& cl_inv(fmap(&s.boundary), dmap(&s.boundary), subs(&s.boundary, s.vp_os@), b_t(s), n, s.reduction_columns@, s.diagram.essential@, s.diagram.pairings@)
}
/// the builder between two degrees
pub open spec fn between<M: MatrixOracle + SquareMatrix + HasRowFiltration + HasColBasis, D: VNext<usize>>(s: &CRMBuilder<M, D, M::RowT, M::CoefficientField>) -> bool
    where <M as HasColBasis>::BasisT: SplitByDimension, M::CoefficientField: Invertible
{
    &&& bd_ok(&s.boundary, s.vp_os@)
    &&& s.dimension_order.items().len() <= s.vp_os@.len()
    &&& s.dimension_order.items() == s.vp_os@.skip(s.vp_os@.len() - s.dimension_order.items().len())
    &&& rc_wf(s.reduction_columns@) && rc_rows(&s.boundary, s.reduction_columns@)
    &&& cl_inv(fmap(&s.boundary), dmap(&s.boundary), subs(&s.boundary, s.vp_os@), b_t(s) + 1, 0, s.reduction_columns@, s.diagram.essential@, s.diagram.pairings@)
}
pub open spec fn rows_in<M: MatrixOracle + SquareMatrix>(m: &M, v: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>) -> bool { forall|i: int| 0 <= i < v.len() ==> m.m_dom((#[trigger] v[i]).row_index) }
pub open spec fn rows_in2<M: MatrixOracle + SquareMatrix>(m: &M, v: Seq<(M::CoefficientField, M::RowT)>) -> bool { forall|i: int| 0 <= i < v.len() ==> m.m_dom((#[trigger] v[i]).1) }
pub proof fn key_rows<M: MatrixOracle + SquareMatrix>(m: &M, es: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>, v: Seq<ColumnEntry<Unit, M::RowT, M::CoefficientField>>)
    requires within_key(es, v), rows_in(m, v),
    ensures rows_in2(m, pairs(es)),
{
    assert forall|i: int| 0 <= i < es.len() implies m.m_dom((#[trigger] pairs(es)[i]).1) by {
        assert(has_key(v, es[i].filtration_value, es[i].row_index));
        let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).row_index == es[i].row_index && v[k].filtration_value == es[i].filtration_value;
        assert(m.m_dom(v[k].row_index));
    }
}
// ------------------------------------------------------------ the complex being reduced
/// the sub-bases in the order in which they are reduced
pub open spec fn subs<M: HasColBasis>(m: &M, os: Seq<usize>) -> Seq<Seq<M::ColT>>
    where <M as HasColBasis>::BasisT: SplitByDimension
{ Seq::new(os.len(), |t: int| m.m_basis().b_sub(os[t] as int).b_seq()) }
pub open spec fn in_subs<K>(bs: Seq<Seq<K>>, x: K) -> bool { exists|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() && #[trigger] bs[t][k] == x }
/// where rows of a column of degree `t` may lie
pub open spec fn next_row<K>(bs: Seq<Seq<K>>, t: int, x: K) -> bool {
    if t + 1 < bs.len() { bs[t + 1].contains(x) } else { !in_subs(bs, x) }
}
/// `d` over the sub-bases `bs` is a filtered (co)chain complex, one degree after the other, every degree
/// listed in filtration order.
pub open spec fn cl_cx<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>) -> bool {
    &&& forall|t: int, i: int, j: int| 0 <= t < bs.len() && 0 <= i < j < bs[t].len() ==> rlt(f, #[trigger] bs[t][i], #[trigger] bs[t][j])
    &&& forall|s: int, i: int, t: int, j: int| 0 <= s < bs.len() && 0 <= i < bs[s].len() && 0 <= t < bs.len() && 0 <= j < bs[t].len() && #[trigger] bs[s][i] == #[trigger] bs[t][j] ==> s == t
    &&& forall|t: int, k: int, x: K| 0 <= t < bs.len() && 0 <= k < bs[t].len() && (#[trigger] coef(d(#[trigger] bs[t][k]), x)) is Some ==> next_row(bs, t, x)
    &&& forall|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() ==> is_null(mulcol(d, d(#[trigger] bs[t][k])))
}
pub proof fn cl_distinct<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int)
    requires cl_cx(f, d, bs), 0 <= t < bs.len(),
    ensures distinct(bs[t]),
{
    let b = bs[t];
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(rlt(f, bs[t][i], bs[t][j])); rlt_total(f, b[i], b[j]); }
}

// ------------------------------------------------------------ one column
pub open spec fn vec_upto<C: NonZeroCoefficient, K>(s: Seq<(C, K)>, b: Seq<K>, n: int) -> bool { supp_upto(b, s, n) }
/// the column of V in progress, with its diagonal
pub open spec fn full<C: NonZeroCoefficient, K>(v: Seq<(C, K)>, x: K) -> Seq<(C, K)> { v.push((C::one_spec(), x)) }
#[verifier::opaque]
pub open spec fn cred_inv<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>) -> bool {
    &&& eqv(pairs(r), mulcol(d, full(pairs(v), b[n])))
    &&& fil_by(r, f) && consistent(r) && consistent(v)
    &&& vec_upto(pairs(v), b, n - 1)
}
/// the first `n` columns of a degree
#[verifier::opaque]
pub open spec fn ctx<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, cols: Map<K, ReductionColumn<C, K>>, low: Map<K, (K, C)>) -> bool {
    &&& forall|p: K| #[trigger] low.dom().contains(p) ==> clow_ok(f, d, b, n, cols, p, low[p])
    &&& forall|j: int| 0 <= j < n && is_red(cols, #[trigger] b[j]) ==> vec_upto(red_vec(cols, b[j]), b, j - 1)
    &&& forall|j: int, p: K| 0 <= j < n && is_red(cols, b[j]) && #[trigger] is_lead(f, mulcol(d, rc_red(cols, b[j])), p) ==> low.dom().contains(p) && low[p].0 == b[j]
}
pub open spec fn clow_ok<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, cols: Map<K, ReductionColumn<C, K>>, p: K, e: (K, C)) -> bool {
    upto(b, e.0, n - 1) && is_red(cols, e.0) && is_lead(f, mulcol(d, rc_red(cols, e.0)), p) && coef(mulcol(d, rc_red(cols, e.0)), p) == Some(e.1)
}
/// nothing to add any more, and the heap shows the lead
pub open spec fn cl_reduced<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, r: Seq<ColumnEntry<F, K, C>>, low: Map<K, (K, C)>) -> bool {
    r.len() == 0 || exists|e: ColumnEntry<F, K, C>| #[trigger] settled(r, e) && !low.dom().contains(e.row_index) && is_lead(f, pairs(r), e.row_index) && coef(pairs(r), e.row_index) == Some(e.coeff)
}
pub proof fn cl_start<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>)
    requires is_ring::<C>(), 0 <= n < b.len(), eqv(pairs(r), d(b[n])), fil_by(r, f), v.len() == 0,
    ensures cred_inv(f, d, b, n, r, v),
{
    reveal(cred_inv);
    let s = full(pairs(v), b[n]);
    fil_by_consistent(r, f);
    assert(s =~= seq![(C::one_spec(), b[n])]);
    assert(s.drop_last() =~= Seq::empty());
    assert forall|x: K| #[trigger] coef(pairs(r), x) == coef(mulcol(d, s), x) by {
        mulcol_coef(d, s, x);
        smul_one(coef(d(b[n]), x));
        assert(mulc(d, s.drop_last(), x) is None);
        assert(coef(pairs(r), x) == coef(d(b[n]), x));
    }
}
pub proof fn cl_facts<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>)
    requires cred_inv(f, d, b, n, r, v),
    ensures fil_by(r, f), consistent(r), consistent(v), vec_upto(pairs(v), b, n - 1), eqv(pairs(r), mulcol(d, full(pairs(v), b[n]))),
{ reveal(cred_inv); }
pub proof fn ctx_facts<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, cols: Map<K, ReductionColumn<C, K>>, low: Map<K, (K, C)>)
    requires ctx(f, d, b, n, cols, low),
    ensures forall|p: K| #[trigger] low.dom().contains(p) ==> is_red(cols, low[p].0),
{
    reveal(ctx);
    assert forall|p: K| #[trigger] low.dom().contains(p) implies is_red(cols, low[p].0) by { assert(clow_ok(f, d, b, n, cols, p, low[p])); }
}
pub proof fn cl_wf<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, n: int, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>)
    requires cl_inv(f, d, bs, t, n, cols, ess, par),
    ensures rc_wf(cols), forall|x: K| #[trigger] is_red(cols, x) ==> done(bs, t, n, x),
{ reveal(cl_inv); }
/// the heap after looking at its pivot
pub proof fn cl_peeked<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, r: Seq<ColumnEntry<F, K, C>>, r2: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>)
    requires cred_inv(f, d, b, n, r, v), eqv(pairs(r2), pairs(r)), within_key(r2, r),
    ensures
        cred_inv(f, d, b, n, r2, v), fil_by(r2, f),
        forall|e: ColumnEntry<F, K, C>| #[trigger] is_pivot(r, e) ==> is_lead(f, pairs(r2), e.row_index) && coef(pairs(r2), e.row_index) == Some(e.coeff),
{
    reveal(cred_inv);
    within_key_fil_by(r2, r, f);
    fil_by_consistent(r2, f);
    assert forall|x: K| #[trigger] coef(pairs(r2), x) == coef(mulcol(d, full(pairs(v), b[n])), x) by { assert(coef(pairs(r2), x) == coef(pairs(r), x)); }
    assert forall|e: ColumnEntry<F, K, C>| #[trigger] is_pivot(r, e) implies is_lead(f, pairs(r2), e.row_index) && coef(pairs(r2), e.row_index) == Some(e.coeff) by {
        pivot_lead(f, r, e);
        lead_congr(f, pairs(r), pairs(r2));
        assert(coef(pairs(r2), e.row_index) == coef(pairs(r), e.row_index));
    }
}
/// the diagonal of a stored column
pub proof fn full_coef<C: NonZeroCoefficient, K>(b: Seq<K>, v: Seq<(C, K)>, n: int)
    requires is_ring::<C>(), 0 <= n < b.len(), distinct(b), vec_upto(v, b, n - 1),
    ensures coef(full(v, b[n]), b[n]) == sone::<C>(), supp_upto(b, full(v, b[n]), n), tri(b, full(v, b[n]), n), forall|x: K| #[trigger] coef(full(v, b[n]), x) == sadd(coef(v, x), term((C::one_spec(), b[n]), x)),
{
    let s = full(v, b[n]);
    assert forall|x: K| #[trigger] coef(s, x) == sadd(coef(v, x), term((C::one_spec(), b[n]), x)) by { coef_push(v, (C::one_spec(), b[n]), x); }
    assert(coef(v, b[n]) is None) by {
        if coef(v, b[n]) is Some {
            assert(upto(b, b[n], n - 1));
            let k = choose|k: int| 0 <= k <= n - 1 && k < b.len() && #[trigger] b[k] == b[n];
            assert(b[k] != b[n]);
        }
    }
    assert forall|x: K| (#[trigger] coef(s, x)) is Some implies upto(b, x, n) by {
        if x == b[n] { assert(b[n] == x); } else {
            assert(coef(v, x) is Some);
            assert(upto(b, x, n - 1));
            let k = choose|k: int| 0 <= k <= n - 1 && k < b.len() && #[trigger] b[k] == x;
            assert(b[k] == x);
        }
    }
}
pub proof fn cl_step<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, n: int, cols: Map<K, ReductionColumn<C, K>>, low: Map<K, (K, C)>,
    r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>, r3: Seq<ColumnEntry<F, K, C>>, v3: Seq<ColumnEntry<Unit, K, C>>, e: ColumnEntry<F, K, C>)
    requires
        is_field::<C>(), 0 <= n < b.len(), distinct(b), ctx(f, d, b, n, cols, low), cred_inv(f, d, b, n, r, v),
        is_lead(f, pairs(r), e.row_index), coef(pairs(r), e.row_index) == Some(e.coeff), low.dom().contains(e.row_index), fil_by(r3, f),
        ({
            let (bj, y) = low[e.row_index];
            let m = <C as MulSpec<C>>::mul_spec(e.coeff.neg_spec(), y.inv_spec());
            is_added(pairs(r3), pairs(r), mulcol(d, rc_red(cols, bj)), m) && is_added(pairs(v3), pairs(v), rc_red(cols, bj), m)
        }),
    ensures
        cred_inv(f, d, b, n, r3, v3),
        count_dom(f, pairs(r3), rows_upto(d, b, n + 1)) < count_dom(f, pairs(r), rows_upto(d, b, n + 1)),
{
    reveal(cred_inv); reveal(ctx);
    field_ring::<C>();
    let (p, x) = (e.row_index, e.coeff);
    let (bj, y) = low[p];
    let m = <C as MulSpec<C>>::mul_spec(x.neg_spec(), y.inv_spec());
    assert(clow_ok(f, d, b, n, cols, p, low[p]));
    let vj = rc_red(cols, bj);
    let j = choose|j: int| 0 <= j <= n - 1 && j < b.len() && #[trigger] b[j] == bj;
    assert(is_red(cols, b[j]));
    assert(vec_upto(red_vec(cols, bj), b, j - 1));
    // rows stay early
    assert(is_red(cols, b[j]));
    full_coef(b, red_vec(cols, bj), j);
    assert(vec_upto(pairs(v3), b, n - 1)) by {
        assert forall|x: K| (#[trigger] coef(pairs(v3), x)) is Some implies upto(b, x, n - 1) by {
            assert(coef(pairs(v3), x) == sadd(coef(pairs(v), x), smul(coef(vj, x), Some(m))));
            if coef(pairs(v), x) is None {
                assert(coef(vj, x) is Some);
                assert(upto(b, x, j));
                let k = choose|k: int| 0 <= k <= j && k < b.len() && #[trigger] b[k] == x;
                assert(b[k] == x);
            }
        }
    }
    full_coef(b, pairs(v), n);
    full_coef(b, pairs(v3), n);
    let (w, w3) = (full(pairs(v), b[n]), full(pairs(v3), b[n]));
    assert forall|k: K| #[trigger] coef(w3, k) == sadd(coef(w, k), smul(coef(vj, k), Some(m))) by {
        assert(coef(pairs(v3), k) == sadd(coef(pairs(v), k), smul(coef(vj, k), Some(m))));
        sadd_right(coef(pairs(v), k), smul(coef(vj, k), Some(m)), term((C::one_spec(), b[n]), k));
    }
    eliminate(f, d, pairs(r), w, pairs(r3), w3, vj, p, x, y);
    assert(fil_by(r3, f));
    fil_by_consistent(r3, f);
    unit_fil(v3);
    assert(coef(pairs(r), p) == coef(mulcol(d, w), p));
    comb_rows(d, b, w, n, p);
    count_mono(f, pairs(r), pairs(r3), rows_upto(d, b, n + 1), p);
}

// ------------------------------------------------------------ all columns
/// `x` has been visited
pub open spec fn done<K>(bs: Seq<Seq<K>>, t: int, n: int, x: K) -> bool {
    exists|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t || s == t && k < n) && #[trigger] bs[s][k] == x
}
#[verifier::opaque]
pub open spec fn cl_inv<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, n: int, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>) -> bool {
    &&& forall|x: K| #[trigger] is_red(cols, x) ==> done(bs, t, n, x)
    &&& forall|x: K| #[trigger] is_clr(cols, x) ==> is_red(cols, clr_by(cols, x)) && is_lead(f, mulcol(d, rc_red(cols, clr_by(cols, x))), x)
    &&& forall|x: K| #[trigger] done(bs, t, n, x) ==> cols.dom().contains(x)
    &&& forall|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && is_red(cols, #[trigger] bs[s][k]) ==> vec_upto(red_vec(cols, bs[s][k]), bs[s], k - 1)
    &&& forall|x: K, p: K| is_red(cols, x) && #[trigger] is_lead(f, mulcol(d, rc_red(cols, x)), p) ==> is_clr(cols, p) && clr_by(cols, p) == x
    &&& forall|x: K| #[trigger] ess.contains(x) <==> is_red(cols, x) && is_null(mulcol(d, rc_red(cols, x)))
    &&& forall|p: K, x: K| #[trigger] par.contains((p, x)) <==> is_red(cols, x) && is_lead(f, mulcol(d, rc_red(cols, x)), p)
}
/// rows of D times a combination of one degree are of the next degree
pub proof fn cl_rows<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, n: int, s: Seq<(C, K)>, x: K)
    requires is_ring::<C>(), cl_cx(f, d, bs), 0 <= t < bs.len(), supp_upto(bs[t], s, n), coef(mulcol(d, s), x) is Some,
    ensures next_row(bs, t, x),
{
    mulcol_coef(d, s, x);
    if forall|k: K| (#[trigger] coef(s, k)) is Some ==> coef(d(k), x) is None { mulc_null(d, s, x); }
    let k = choose|k: K| (#[trigger] coef(s, k)) is Some && coef(d(k), x) is Some;
    assert(upto(bs[t], k, n));
    let i = choose|i: int| 0 <= i <= n && i < bs[t].len() && #[trigger] bs[t][i] == k;
    assert(coef(d(bs[t][i]), x) is Some);
}
/// a row of the next degree has not been visited
pub proof fn cl_fresh<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, n: int, x: K)
    requires cl_cx(f, d, bs), 0 <= t < bs.len(), next_row(bs, t, x),
    ensures !done(bs, t, n, x), forall|s: int, i: int| 0 <= s <= t && 0 <= i < bs[s].len() ==> #[trigger] bs[s][i] != x,
{
    assert forall|s: int, i: int| 0 <= s <= t && 0 <= i < bs[s].len() implies #[trigger] bs[s][i] != x by {
        if bs[s][i] == x {
            if t + 1 < bs.len() { let j = bs[t + 1].index_of(x); assert(bs[t + 1][j] == bs[s][i]); }
        }
    }
    if done(bs, t, n, x) {
        let (s, k) = choose|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t || s == t && k < n) && #[trigger] bs[s][k] == x;
        assert(bs[s][k] != x);
    }
}
/// leads lie in exactly one degree
pub proof fn next_unique<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, s: int, t: int, x: K)
    requires cl_cx(f, d, bs), 0 <= s < bs.len(), 0 <= t < bs.len(), next_row(bs, s, x), next_row(bs, t, x),
    ensures s == t,
{
    if s + 1 < bs.len() { let i = bs[s + 1].index_of(x); assert(bs[s + 1][i] == x); assert(in_subs(bs, x)); }
    if t + 1 < bs.len() { let j = bs[t + 1].index_of(x); assert(bs[t + 1][j] == x); assert(in_subs(bs, x)); }
    if s + 1 < bs.len() && t + 1 < bs.len() { assert(bs[s + 1][bs[s + 1].index_of(x)] == bs[t + 1][bs[t + 1].index_of(x)]); }
}
pub proof fn cl_init<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>)
    ensures cl_inv(f, d, bs, 0, 0, Map::<K, ReductionColumn<C, K>>::empty(), Set::<K>::empty(), Set::<(K, K)>::empty()),
{ reveal(cl_inv); }
/// an empty degree start
pub proof fn cl_next<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>)
    requires 0 <= t < bs.len(), cl_inv(f, d, bs, t, bs[t].len() as int, cols, ess, par),
    ensures cl_inv(f, d, bs, t + 1, 0, cols, ess, par),
{
    reveal(cl_inv);
    assert forall|x: K| #[trigger] done(bs, t + 1, 0, x) == done(bs, t, bs[t].len() as int, x) by {
        if done(bs, t + 1, 0, x) {
            let (s, k) = choose|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t + 1 || s == t + 1 && k < 0) && #[trigger] bs[s][k] == x;
            assert(bs[s][k] == x);
        }
        if done(bs, t, bs[t].len() as int, x) {
            let (s, k) = choose|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t || s == t && k < bs[t].len()) && #[trigger] bs[s][k] == x;
            assert(bs[s][k] == x);
        }
    }
    assert forall|x: K| #[trigger] is_red(cols, x) implies done(bs, t + 1, 0, x) by { assert(done(bs, t, bs[t].len() as int, x)); }
}
pub proof fn done_step<K>(bs: Seq<Seq<K>>, t: int, n: int, x: K)
    requires 0 <= t < bs.len(), 0 <= n < bs[t].len(),
    ensures done(bs, t, n + 1, x) == (done(bs, t, n, x) || x == bs[t][n]),
{
    if done(bs, t, n + 1, x) {
        let (s, k) = choose|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t || s == t && k < n + 1) && #[trigger] bs[s][k] == x;
        assert(bs[s][k] == x);
    }
    if done(bs, t, n, x) {
        let (s, k) = choose|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t || s == t && k < n) && #[trigger] bs[s][k] == x;
        assert(bs[s][k] == x);
    }
    assert(bs[t][n] == bs[t][n]);
}
/// a column that was cleared before is passed over
pub proof fn cl_skip<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, n: int, cols: Map<K, ReductionColumn<C, K>>, low: Map<K, (K, C)>, ess: Set<K>, par: Set<(K, K)>)
    requires cl_cx(f, d, bs), 0 <= t < bs.len(), 0 <= n < bs[t].len(), cl_inv(f, d, bs, t, n, cols, ess, par), ctx(f, d, bs[t], n, cols, low), cols.dom().contains(bs[t][n]),
    ensures cl_inv(f, d, bs, t, n + 1, cols, ess, par), ctx(f, d, bs[t], n + 1, cols, low),
{
    reveal(cl_inv); reveal(ctx);
    cl_distinct(f, d, bs, t);
    let b = bs[t];
    assert forall|x: K| #[trigger] done(bs, t, n + 1, x) == (done(bs, t, n, x) || x == b[n]) by { done_step(bs, t, n, x); }
    assert(!done(bs, t, n, b[n])) by {
        if done(bs, t, n, b[n]) {
            let (s, k) = choose|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t || s == t && k < n) && #[trigger] bs[s][k] == b[n];
            assert(bs[s][k] == bs[t][n]);
            assert(b[k] != b[n]);
        }
    }
    assert(!is_red(cols, b[n]));
    assert forall|x: K| #[trigger] is_red(cols, x) implies done(bs, t, n + 1, x) by { assert(done(bs, t, n, x)); }
    assert forall|p: K| #[trigger] low.dom().contains(p) implies clow_ok(f, d, b, n + 1, cols, p, low[p]) by {
        assert(clow_ok(f, d, b, n, cols, p, low[p]));
        let k = choose|k: int| 0 <= k <= n - 1 && k < b.len() && #[trigger] b[k] == low[p].0;
        assert(b[k] == low[p].0);
    }
}
pub proof fn ctx_start<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, cols: Map<K, ReductionColumn<C, K>>)
    ensures ctx(f, d, b, 0, cols, Map::<K, (K, C)>::empty()),
{ reveal(ctx); }
/// D times a reduced column has its rows in the next degree
pub proof fn cl_next_rows<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, n: int, cols: Map<K, ReductionColumn<C, K>>, y: K, x: K) -> (r: (int, int))
    requires
        is_ring::<C>(), cl_cx(f, d, bs), done(bs, t, n, y), is_red(cols, y), coef(mulcol(d, rc_red(cols, y)), x) is Some,
        forall|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && is_red(cols, #[trigger] bs[s][k]) ==> vec_upto(red_vec(cols, bs[s][k]), bs[s], k - 1),
    ensures 0 <= r.0 < bs.len(), 0 <= r.1 < bs[r.0].len(), bs[r.0][r.1] == y, r.0 < t || r.0 == t && r.1 < n, next_row(bs, r.0, x),
{
    let (s, k) = choose|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && (s < t || s == t && k < n) && #[trigger] bs[s][k] == y;
    cl_distinct(f, d, bs, s);
    assert(is_red(cols, bs[s][k]));
    full_coef(bs[s], red_vec(cols, y), k);
    cl_rows(f, d, bs, s, k, rc_red(cols, y), x);
    (s, k)
}
/// what saving column `x` does
pub open spec fn saved<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, r: Seq<ColumnEntry<F, K, C>>, x: K, nc: Vec<(C, K)>,
    cols: Map<K, ReductionColumn<C, K>>, cols2: Map<K, ReductionColumn<C, K>>, low: Map<K, (K, C)>, low2: Map<K, (K, C)>, ess: Set<K>, ess2: Set<K>, par: Set<(K, K)>, par2: Set<(K, K)>) -> bool
{
    ||| r.len() == 0 && low2 == low && cols2 == cols.insert(x, ReductionColumn::Reduced(nc)) && ess2 == ess.insert(x) && par2 == par
    ||| exists|e: ColumnEntry<F, K, C>| #[trigger] settled(r, e) && !low.dom().contains(e.row_index) && is_lead(f, pairs(r), e.row_index) && coef(pairs(r), e.row_index) == Some(e.coeff)
        && low2 == low.insert(e.row_index, (x, e.coeff)) && cols2 == cols.insert(e.row_index, ReductionColumn::Cleared(x)).insert(x, ReductionColumn::Reduced(nc)) && ess2 == ess && par2 == par.insert((e.row_index, x))
}
pub proof fn cl_save<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, t: int, n: int,
    r: Seq<ColumnEntry<F, K, C>>, v: Seq<ColumnEntry<Unit, K, C>>, nc: Vec<(C, K)>,
    cols: Map<K, ReductionColumn<C, K>>, cols2: Map<K, ReductionColumn<C, K>>, low: Map<K, (K, C)>, low2: Map<K, (K, C)>, ess: Set<K>, ess2: Set<K>, par: Set<(K, K)>, par2: Set<(K, K)>)
    requires
        is_ring::<C>(), cl_cx(f, d, bs), 0 <= t < bs.len(), 0 <= n < bs[t].len(),
        cl_inv(f, d, bs, t, n, cols, ess, par), ctx(f, d, bs[t], n, cols, low), cred_inv(f, d, bs[t], n, r, v),
        !cols.dom().contains(bs[t][n]), eqv(nc@, pairs(v)),
        saved(f, r, bs[t][n], nc, cols, cols2, low, low2, ess, ess2, par, par2),
    ensures
        cl_inv(f, d, bs, t, n + 1, cols2, ess2, par2), ctx(f, d, bs[t], n + 1, cols2, low2),
{
    reveal(cl_inv); reveal(ctx); reveal(cred_inv);
    let b = bs[t];
    let x = b[n];
    cl_distinct(f, d, bs, t);
    let s2 = rc_red(cols2, x);
    let w = full(pairs(v), x);
    let a2 = mulcol(d, s2);
    full_coef(b, pairs(v), n);
    assert(vec_upto(nc@, b, n - 1)) by { assert forall|k: K| (#[trigger] coef(nc@, k)) is Some implies upto(b, k, n - 1) by { assert(coef(nc@, k) == coef(pairs(v), k)); } }
    assert(red_vec(cols2, x) == nc@);
    full_coef(b, nc@, n);
    assert forall|k: K| #[trigger] coef(s2, k) == coef(w, k) by { assert(coef(nc@, k) == coef(pairs(v), k)); }
    mulcol_congr(d, s2, w);
    assert forall|k: K| #[trigger] coef(pairs(r), k) == coef(a2, k) by { assert(coef(mulcol(d, w), k) == coef(a2, k)); }
    lead_congr(f, pairs(r), a2);
    let zero = r.len() == 0 && low2 == low && cols2 == cols.insert(x, ReductionColumn::Reduced(nc)) && ess2 == ess.insert(x) && par2 == par;
    let e = choose|e: ColumnEntry<F, K, C>| #[trigger] settled(r, e) && !low.dom().contains(e.row_index) && is_lead(f, pairs(r), e.row_index) && coef(pairs(r), e.row_index) == Some(e.coeff)
        && low2 == low.insert(e.row_index, (x, e.coeff)) && cols2 == cols.insert(e.row_index, ReductionColumn::Cleared(x)).insert(x, ReductionColumn::Reduced(nc)) && ess2 == ess && par2 == par.insert((e.row_index, x));
    let p = e.row_index;
    if zero {
        assert forall|k: K| (#[trigger] coef(a2, k)) is None by { coef_absent(pairs(r), k); assert(coef(pairs(r), k) == coef(a2, k)); }
    } else {
        assert(is_lead(f, a2, p));
        lead_not_null(f, a2, p);
        assert(coef(mulcol(d, w), p) is Some) by { assert(coef(pairs(r), p) == coef(a2, p)); }
        cl_rows(f, d, bs, t, n, w, p);
        cl_fresh(f, d, bs, t, n, p);
        assert(bs[t][n] != p);
        assert(!is_red(cols, p));
        if is_clr(cols, p) {
            let y = clr_by(cols, p);
            assert(is_red(cols, y) && is_lead(f, mulcol(d, rc_red(cols, y)), p));
            let (s, k) = cl_next_rows(f, d, bs, t, n, cols, y, p);
            next_unique(f, d, bs, s, t, p);
            assert(is_red(cols, b[k]) && is_lead(f, mulcol(d, rc_red(cols, b[k])), p));
            assert(low.dom().contains(p));
        }
        assert(!cols.dom().contains(p));
        assert forall|q: K| #[trigger] is_lead(f, a2, q) implies q == p by { lead_unique(f, a2, q, p); }
    }
    assert forall|q: K| #[trigger] is_lead(f, a2, q) implies !zero by { lead_not_null(f, a2, q); }
    assert forall|y: K| #[trigger] is_red(cols2, y) == (y == x || is_red(cols, y)) by {}
    assert forall|y: K| is_red(cols2, y) && y != x implies #[trigger] rc_red(cols2, y) == rc_red(cols, y) && red_vec(cols2, y) == red_vec(cols, y) by { assert(cols2[y] == cols[y]); }
    assert forall|y: K| #[trigger] done(bs, t, n + 1, y) == (done(bs, t, n, y) || y == x) by { done_step(bs, t, n, y); }
    // the columns already there
    assert forall|y: K| #[trigger] is_red(cols2, y) implies done(bs, t, n + 1, y) by { if y != x { assert(is_red(cols, y)); assert(done(bs, t, n, y)); } }
    assert forall|y: K| #[trigger] done(bs, t, n + 1, y) implies cols2.dom().contains(y) by { if y != x { assert(done(bs, t, n, y)); assert(cols.dom().contains(y)); } }
    assert forall|y: K| #[trigger] is_clr(cols2, y) implies is_red(cols2, clr_by(cols2, y)) && is_lead(f, mulcol(d, rc_red(cols2, clr_by(cols2, y))), y) by {
        if !zero && y == p {} else {
            assert(y != x);
            assert(is_clr(cols, y));
            let z = clr_by(cols, y);
            assert(is_red(cols, z));
            assert(z != x);
            assert(is_red(cols2, z));
            assert(rc_red(cols2, z) == rc_red(cols, z));
        }
    }
    assert forall|s: int, k: int| 0 <= s < bs.len() && 0 <= k < bs[s].len() && is_red(cols2, #[trigger] bs[s][k]) implies vec_upto(red_vec(cols2, bs[s][k]), bs[s], k - 1) by {
        if bs[s][k] == x {
            assert(bs[t][n] == bs[s][k]);
            if k < n { assert(b[k] != b[n]); } else if n < k { assert(b[n] != b[k]); }
        } else { assert(is_red(cols, bs[s][k])); assert(rc_red(cols2, bs[s][k]) == rc_red(cols, bs[s][k])); }
    }
    assert forall|y: K, q: K| is_red(cols2, y) && #[trigger] is_lead(f, mulcol(d, rc_red(cols2, y)), q) implies is_clr(cols2, q) && clr_by(cols2, q) == y by {
        if y == x { assert(q == p); } else {
            assert(is_red(cols, y));
            assert(rc_red(cols2, y) == rc_red(cols, y));
            assert(is_lead(f, mulcol(d, rc_red(cols, y)), q));
            assert(is_clr(cols, q) && clr_by(cols, q) == y);
            assert(q != x);
            assert(cols2[q] == cols[q]);
        }
    }
    assert forall|y: K| #[trigger] ess2.contains(y) <==> is_red(cols2, y) && is_null(mulcol(d, rc_red(cols2, y))) by {
        if y != x {
            assert(is_red(cols2, y) == is_red(cols, y));
            if is_red(cols, y) { assert(rc_red(cols2, y) == rc_red(cols, y)); }
            assert(ess2.contains(y) == ess.contains(y));
        } else { assert(!is_red(cols, x)); assert(!ess.contains(x)); }
    }
    assert forall|q: K, y: K| #[trigger] par2.contains((q, y)) <==> is_red(cols2, y) && is_lead(f, mulcol(d, rc_red(cols2, y)), q) by {
        if y != x {
            assert(is_red(cols2, y) == is_red(cols, y));
            if is_red(cols, y) { assert(rc_red(cols2, y) == rc_red(cols, y)); }
            assert(par2.contains((q, y)) == par.contains((q, y)));
        } else { assert(!is_red(cols, x)); assert(!par.contains((q, x))); }
    }
    // the current degree
    assert forall|q: K| #[trigger] low2.dom().contains(q) implies clow_ok(f, d, b, n + 1, cols2, q, low2[q]) by {
        if !zero && q == p {
            assert(b[n] == low2[q].0);
            assert(coef(pairs(r), p) == coef(a2, p));
        } else {
            assert(low2[q] == low[q]);
            assert(clow_ok(f, d, b, n, cols, q, low[q]));
            let i = choose|i: int| 0 <= i <= n - 1 && i < b.len() && #[trigger] b[i] == low[q].0;
            assert(b[i] == low[q].0);
            assert(b[i] != b[n]);
            assert(is_red(cols2, low[q].0));
            assert(rc_red(cols2, low[q].0) == rc_red(cols, low[q].0));
        }
    }
    assert forall|j: int| 0 <= j < n + 1 && is_red(cols2, #[trigger] b[j]) implies vec_upto(red_vec(cols2, b[j]), b, j - 1) by { assert(bs[t][j] == b[j]); }
    assert forall|j: int, q: K| 0 <= j < n + 1 && is_red(cols2, b[j]) && #[trigger] is_lead(f, mulcol(d, rc_red(cols2, b[j])), q) implies low2.dom().contains(q) && low2[q].0 == b[j] by {
        if j == n { assert(q == p); } else {
            assert(b[j] != b[n]);
            assert(is_red(cols, b[j]));
            assert(rc_red(cols2, b[j]) == rc_red(cols, b[j]));
            assert(is_lead(f, mulcol(d, rc_red(cols, b[j])), q));
            assert(low.dom().contains(q));
        }
    }
}

// ------------------------------------------------------------ the result
/// V by columns
pub open spec fn vcl<C: NonZeroCoefficient, K>(d: spec_fn(K) -> Seq<(C, K)>, cols: Map<K, ReductionColumn<C, K>>) -> spec_fn(K) -> Seq<(C, K)> { |x: K| rc_col(d, cols, x) }
/// The contract of the clearing algorithm: a column of V for every processed element; in each degree V is
/// triangular and invertible; the non-zero columns of DV have pairwise distinct leads over all degrees; cleared
/// columns are cycles; the diagram lists exactly the leads and the unpaired cycles.
pub open spec fn clear_ok<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>) -> bool {
    let a = rcol(d, vcl(d, cols));
    &&& forall|x: K| #[trigger] in_subs(bs, x) ==> cols.dom().contains(x)
    &&& forall|t: int| 0 <= t < bs.len() ==> valid(f, d, #[trigger] bs[t], vcl(d, cols))
    &&& forall|x: K, y: K, p: K| in_subs(bs, x) && in_subs(bs, y) && #[trigger] is_lead(f, a(x), p) && #[trigger] is_lead(f, a(y), p) ==> x == y
    &&& forall|x: K| #[trigger] is_clr(cols, x) ==> is_null(a(x))
    &&& forall|p: K, x: K| #[trigger] par.contains((p, x)) <==> in_subs(bs, x) && is_lead(f, a(x), p)
    &&& forall|x: K| #[trigger] ess.contains(x) <==> in_subs(bs, x) && is_null(a(x)) && !is_birth(par, x)
}
/// a cleared column is D times the column that cleared it: triangular, and a cycle
pub proof fn cl_cleared<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>, t: int, j: int)
    requires
        is_ring::<C>(), cl_cx(f, d, bs), cl_inv(f, d, bs, bs.len() as int, 0, cols, ess, par),
        0 <= t < bs.len(), 0 <= j < bs[t].len(), is_clr(cols, bs[t][j]),
    ensures tri(bs[t], rc_col(d, cols, bs[t][j]), j),
{
    reveal(cl_inv);
    let b = bs[t];
    let x = b[j];
    let y = clr_by(cols, x);
    let sy = rc_red(cols, y);
    let r = mulcol(d, sy);
    assert(is_red(cols, y) && is_lead(f, r, x));
    assert(in_subs(bs, x)) by { assert(bs[t][j] == x); }
    assert forall|q: K| (#[trigger] coef(r, q)) is Some implies upto(b, q, j) by {
        let (s, k) = cl_next_rows(f, d, bs, bs.len() as int, 0, cols, y, x);
        let (s2, k2) = cl_next_rows(f, d, bs, bs.len() as int, 0, cols, y, q);
        assert(bs[s][k] == bs[s2][k2]);
        let i = bs[s + 1].index_of(x);
        assert(bs[s + 1][i] == bs[t][j]);
        assert(b.contains(q));
        let m = b.index_of(q);
        assert(b[m] == q);
        if m > j { assert(rlt(f, bs[t][j], bs[t][m])); rlt_total(f, x, q); }
    }
}
/// .. even if it is the column of an element outside the processed degrees
pub proof fn cl_cleared_null<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>, x: K)
    requires
        is_ring::<C>(), cl_cx(f, d, bs), cl_inv(f, d, bs, bs.len() as int, 0, cols, ess, par), is_clr(cols, x),
    ensures is_null(mulcol(d, rc_col(d, cols, x))),
{
    reveal(cl_inv);
    let y = clr_by(cols, x);
    let sy = rc_red(cols, y);
    let r = mulcol(d, sy);
    assert(is_red(cols, y) && is_lead(f, r, x));
    let (s, k) = cl_next_rows(f, d, bs, bs.len() as int, 0, cols, y, x);
    cl_distinct(f, d, bs, s);
    assert(is_red(cols, bs[s][k]));
    full_coef(bs[s], red_vec(cols, y), k);
    mulcol_assoc(d, d, sy);
    let dd = |k: K| mulcol(d, d(k));
    assert forall|q: K| (#[trigger] coef(mulcol(d, r), q)) is None by {
        assert(coef(mulcol(d, mulcol(d, sy)), q) == coef(mulcol(dd, sy), q));
        mulcol_coef(dd, sy, q);
        assert forall|z: K| (#[trigger] coef(sy, z)) is Some implies coef(dd(z), q) is None by {
            assert(upto(bs[s], z, k));
            let i = choose|i: int| 0 <= i <= k && i < bs[s].len() && #[trigger] bs[s][i] == z;
            assert(is_null(mulcol(d, d(bs[s][i]))));
        }
        mulc_null(dd, sy, q);
    }
}
pub proof fn cl_final<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, bs: Seq<Seq<K>>, cols: Map<K, ReductionColumn<C, K>>, ess: Set<K>, par: Set<(K, K)>)
    requires is_ring::<C>(), cl_cx(f, d, bs), cl_inv(f, d, bs, bs.len() as int, 0, cols, ess, par),
    ensures clear_ok(f, d, bs, cols, ess, par),
{
    reveal(cl_inv);
    let v = vcl(d, cols);
    let a = rcol(d, v);
    let l = bs.len() as int;
    assert forall|x: K| #[trigger] in_subs(bs, x) <==> done(bs, l, 0, x) by {
        if in_subs(bs, x) { let (t, k) = choose|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() && #[trigger] bs[t][k] == x; assert(bs[t][k] == x); }
        if done(bs, l, 0, x) { let (t, k) = choose|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() && (t < l || t == l && k < 0) && #[trigger] bs[t][k] == x; assert(bs[t][k] == x); }
    }
    assert forall|x: K| #[trigger] in_subs(bs, x) implies cols.dom().contains(x) by { assert(done(bs, l, 0, x)); }
    assert forall|x: K| #[trigger] is_clr(cols, x) implies is_null(a(x)) by { cl_cleared_null(f, d, bs, cols, ess, par, x); }
    assert forall|x: K| #[trigger] is_red(cols, x) implies a(x) == mulcol(d, rc_red(cols, x)) && in_subs(bs, x) by { assert(done(bs, l, 0, x)); assert(in_subs(bs, x) <==> done(bs, l, 0, x)); }
    assert forall|x: K, p: K| in_subs(bs, x) && #[trigger] is_lead(f, a(x), p) implies is_red(cols, x) && is_clr(cols, p) && clr_by(cols, p) == x by {
        if is_clr(cols, x) { lead_not_null(f, a(x), p); }
        assert(is_red(cols, x));
        assert(is_lead(f, mulcol(d, rc_red(cols, x)), p));
    }
    assert forall|t: int| 0 <= t < bs.len() implies valid(f, d, #[trigger] bs[t], v) by {
        let b = bs[t];
        cl_distinct(f, d, bs, t);
        assert forall|j: int| 0 <= j < b.len() implies tri(b, v(#[trigger] b[j]), j) by {
            assert(bs[t][j] == b[j]);
            assert(in_subs(bs, b[j]));
            if is_clr(cols, b[j]) { cl_cleared(f, d, bs, cols, ess, par, t, j); } else { assert(is_red(cols, bs[t][j])); full_coef(b, red_vec(cols, b[j]), j); }
        }
        assert forall|i: int, j: int, p: K| 0 <= i < b.len() && 0 <= j < b.len() && #[trigger] is_lead(f, a(b[i]), p) && #[trigger] is_lead(f, a(b[j]), p) implies i == j by {
            assert(bs[t][i] == b[i] && bs[t][j] == b[j]);
            assert(in_subs(bs, b[i]) && in_subs(bs, b[j]));
            if i < j { assert(b[i] != b[j]); } else if j < i { assert(b[j] != b[i]); }
        }
    }
    assert forall|p: K, x: K| #[trigger] par.contains((p, x)) <==> in_subs(bs, x) && is_lead(f, a(x), p) by {
        if in_subs(bs, x) && is_lead(f, a(x), p) { assert(is_red(cols, x)); }
    }
    assert forall|x: K| #[trigger] ess.contains(x) <==> in_subs(bs, x) && is_null(a(x)) && !is_birth(par, x) by {
        if is_birth(par, x) { let y = choose|y: K| #[trigger] par.contains((x, y)); assert(is_lead(f, a(y), x)); assert(is_clr(cols, x)); }
        if in_subs(bs, x) && !is_birth(par, x) {
            if is_clr(cols, x) {
                let y = clr_by(cols, x);
                assert(is_red(cols, y) && is_lead(f, mulcol(d, rc_red(cols, y)), x));
                assert(par.contains((x, y)));
            }
            assert(is_red(cols, x));
        }
    }
}
/// when nothing outside the processed degrees has rows in them, a column with a low in them is processed
pub proof fn cl_column_kept<F: FiltrationValue, C: NonZeroCoefficient, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, deg: spec_fn(K) -> int, v: Map<K, Vec<(C, K)>>, bs: Seq<Seq<K>>, degs: Seq<int>, x: K, y: K)
    requires
        is_ring::<C>(), rdv_ok(f, d, b, v), b.contains(y), is_lead(f, rcol(d, vmap(v))(y), x), in_subs(bs, x),
        vhom(deg, v[y]@, y),
        degs.len() == bs.len(),
        forall|t: int, x: K| 0 <= t < bs.len() ==> (#[trigger] bs[t].contains(x) <==> b.contains(x) && deg(x) == degs[t]),
        forall|y: K, x: K| b.contains(y) && in_subs(bs, x) && (#[trigger] coef(d(y), x)) is Some ==> in_subs(bs, y),
    ensures in_subs(bs, y),
{
    let j = b.index_of(y);
    let s = v[b[j]]@;
    assert(vcol_ok(v[b[j]]@, b, j));
    supp_of_pairs(b, s, j);
    assert(vhom(deg, v[b[j]]@, b[j]));
    mulcol_coef(d, s, x);
    if forall|k: K| (#[trigger] coef(s, k)) is Some ==> coef(d(k), x) is None { mulc_null(d, s, x); }
    let k = choose|k: K| (#[trigger] coef(s, k)) is Some && coef(d(k), x) is Some;
    assert(upto(b, k, j));
    let i = choose|i: int| 0 <= i <= j && i < b.len() && #[trigger] b[i] == k;
    assert(b.contains(b[i]));
    assert(in_subs(bs, k));
    let (t, m) = choose|t: int, m: int| 0 <= t < bs.len() && 0 <= m < bs[t].len() && #[trigger] bs[t][m] == k;
    assert(bs[t].contains(k));
    assert(bs[t].contains(y));
    let q = bs[t].index_of(y);
    assert(bs[t][q] == y);
}
/// The diagram is that of the standard algorithm, restricted to the processed degrees.
pub proof fn theorem_clearing<F: FiltrationValue, C: Invertible, K: BasisElement>(f: spec_fn(K) -> F, d: spec_fn(K) -> Seq<(C, K)>, b: Seq<K>, deg: spec_fn(K) -> int, sgn: int, v: Map<K, Vec<(C, K)>>, rev: bool, ess: Set<K>, par: Set<(K, K)>,
    bs: Seq<Seq<K>>, degs: Seq<int>, cols: Map<K, ReductionColumn<C, K>>, ess2: Set<K>, par2: Set<(K, K)>)
    requires
        is_field::<C>(), complex(f, d, b, deg, sgn), sgn == (if rev { 1int } else { -1 }), rdv_ok(f, d, b, v), diagram_of(f, rcol(d, vmap(v)), b, rev, ess, par),
        cl_cx(f, d, bs), clear_ok(f, d, bs, cols, ess2, par2),
        // bs[t] is the part of b of degree degs[t]
        degs.len() == bs.len(),
        forall|t: int, x: K| 0 <= t < bs.len() ==> (#[trigger] bs[t].contains(x) <==> b.contains(x) && deg(x) == degs[t]),
    ensures
        forall|p: K, x: K| #[trigger] par2.contains((p, x)) <==> par.contains((p, x)) && in_subs(bs, x),
        forall|x: K| #[trigger] ess2.contains(x) <==> in_subs(bs, x) && is_null(rcol(d, vmap(v))(x)) && !is_birth(par2, x),
        // when nothing outside the processed degrees has rows in them
        (forall|y: K, x: K| b.contains(y) && in_subs(bs, x) && (#[trigger] coef(d(y), x)) is Some ==> in_subs(bs, y)) ==>
            forall|x: K| #[trigger] ess2.contains(x) <==> ess.contains(x) && in_subs(bs, x),
{
    field_ring::<C>();
    let a = rcol(d, vmap(v));
    let a2 = rcol(d, vcl(d, cols));
    theorem_partition(f, d, b, deg, sgn, v, rev, ess, par);
    assert forall|t: int| 0 <= t < bs.len() implies valid(f, d, #[trigger] bs[t], vmap(v)) by {
        let c = bs[t];
        assert(valid(f, d, bs[t], vcl(d, cols)));
        assert forall|j: int| 0 <= j < c.len() implies tri(c, vmap(v)(#[trigger] c[j]), j) by {
            let x = c[j];
            assert(bs[t].contains(x));
            let i = b.index_of(x);
            let s = v[b[i]]@;
            assert(vcol_ok(v[b[i]]@, b, i));
            supp_of_pairs(b, s, i);
            assert(vhom(deg, v[b[i]]@, b[i]));
            assert forall|q: K| (#[trigger] coef(s, q)) is Some implies upto(c, q, j) by {
                assert(deg(q) == deg(x));
                assert(upto(b, q, i));
                let k = choose|k: int| 0 <= k <= i && k < b.len() && #[trigger] b[k] == q;
                assert(b.contains(b[k]));
                assert(bs[t].contains(q));
                let m = c.index_of(q);
                assert(c[m] == q);
                if m > j {
                    assert(rlt(f, bs[t][j], bs[t][m])); rlt_total(f, x, q);
                    if k < i { assert(rlt(f, b[k], b[i])); }
                }
            }
        }
        assert forall|i: int, j: int, p: K| 0 <= i < c.len() && 0 <= j < c.len() && #[trigger] is_lead(f, a(c[i]), p) && #[trigger] is_lead(f, a(c[j]), p) implies i == j by {
            assert(bs[t].contains(c[i]) && bs[t].contains(c[j]));
            let (k, m) = (b.index_of(c[i]), b.index_of(c[j]));
            assert(is_lead(f, a(b[k]), p) && is_lead(f, a(b[m]), p));
            assert(c[i] == c[j]);
            if i < j { assert(c[i] != c[j]); } else if j < i { assert(c[j] != c[i]); }
        }
    }
    assert forall|x: K| #[trigger] in_subs(bs, x) implies b.contains(x) && (is_null(a(x)) <==> is_null(a2(x))) && forall|p: K| (#[trigger] is_lead(f, a(x), p) <==> is_lead(f, a2(x), p)) by {
        let (t, k) = choose|t: int, k: int| 0 <= t < bs.len() && 0 <= k < bs[t].len() && #[trigger] bs[t][k] == x;
        assert(bs[t].contains(x));
        assert(valid(f, d, bs[t], vcl(d, cols)));
        theorem_canonical(f, d, bs[t], vmap(v), vcl(d, cols));
        assert(is_null(a(bs[t][k])) <==> is_null(a2(bs[t][k])));
        assert forall|p: K| (#[trigger] is_lead(f, a(x), p) <==> is_lead(f, a2(x), p)) by { assert(is_lead(f, a(bs[t][k]), p) <==> is_lead(f, a2(bs[t][k]), p)); }
    }
    assert forall|p: K, x: K| #[trigger] par2.contains((p, x)) <==> par.contains((p, x)) && in_subs(bs, x) by {
        if in_subs(bs, x) { assert(is_lead(f, a(x), p) <==> is_lead(f, a2(x), p)); }
    }
    if forall|y: K, x: K| b.contains(y) && in_subs(bs, x) && (#[trigger] coef(d(y), x)) is Some ==> in_subs(bs, y) {
        assert forall|x: K| #[trigger] ess2.contains(x) <==> ess.contains(x) && in_subs(bs, x) by {
            if is_birth(par2, x) { let y = choose|y: K| #[trigger] par2.contains((x, y)); assert(par.contains((x, y))); }
            if in_subs(bs, x) && is_birth(par, x) {
                let y = choose|y: K| #[trigger] par.contains((x, y));
                cl_column_kept(f, d, b, deg, v, bs, degs, x, y);
                assert(par2.contains((x, y)));
            }
        }
    }
}
