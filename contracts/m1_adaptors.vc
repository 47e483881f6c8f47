@@file phlite/src/matrices/adaptors.rs adaptors
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::heap::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use core::marker::PhantomData;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
@@attr WithFuncFiltration :: #[verifier::reject_recursive_types(FT)]

@@inside <WithTrivialFiltration as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.oracle.m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.oracle.m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.oracle.m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.oracle.m_at(col, row) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <WithTrivialFiltration as MatrixOracle>::column
@@inside <WithTrivialFiltration as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { true }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { Unit }
@@fn <WithTrivialFiltration as HasRowFiltration>::filtration_value
@@inside <WithTrivialFiltration as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.oracle.c_wf() }
    open spec fn m_basis(&self) -> Self::BasisT { self.oracle.m_basis() }
@@fn <WithTrivialFiltration as HasColBasis>::basis
@@inside <WithFuncFiltration as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.oracle.m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.oracle.m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.oracle.m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.oracle.m_at(col, row) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <WithFuncFiltration as MatrixOracle>::column
@@fn WithFuncFiltration::discard_filtration
@ret r
@spec
    ensures r == self.oracle,
@@inside <WithFuncFiltration as HasRowFiltration>
    open spec fn f_wf(&self) -> bool {
        forall|x: Self::RowT| #[trigger] self.oracle.m_row(x) ==> call_requires(self.filtration, (x,))
            && forall|a: FT, b: FT| #[trigger] call_ensures(self.filtration, (x,), a) && #[trigger] call_ensures(self.filtration, (x,), b) ==> a == b
    }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { choose|v: FT| call_ensures(self.filtration, (row,), v) }
@@fn <WithFuncFiltration as HasRowFiltration>::filtration_value
@end
    proof { assert(call_ensures(self.filtration, (row,), vp_ret)); }
@@inside <WithFuncFiltration as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.oracle.c_wf() }
    open spec fn m_basis(&self) -> Self::BasisT { self.oracle.m_basis() }
@@fn <WithFuncFiltration as HasColBasis>::basis
@@inside <Consolidator as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.oracle.m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.oracle.m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.oracle.m_row(row) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <Consolidator as MatrixOracle>::column
@ret r
@spec
    ensures distinct_rows(r@),
@start
    proof { self.oracle.m_ring(); }
@end
    proof {
        assert forall|i: int| 0 <= i < vp_ret@.len() implies self.m_row((#[trigger] vp_ret@[i]).1) by { }
    }
@@inside <Consolidator as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.oracle.f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { self.oracle.f_val(row) }
@@fn <Consolidator as HasRowFiltration>::filtration_value
@@inside <Consolidator as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.oracle.c_wf() }
    open spec fn m_basis(&self) -> Self::BasisT { self.oracle.m_basis() }
@@fn <Consolidator as HasColBasis>::basis
@@fn <ConsolidatorColumn as Iterator>::next
@ret r
@spec
    requires is_ring::<M::CoefficientField>(),
    ensures
        r is None ==> final(self).bh_col.heap.seq().len() == 0 && vanishes(old(self).bh_col.heap.seq()),
        r is Some ==> is_pivot(old(self).bh_col.heap.seq(), ent1(r->0))
            && below(final(self).bh_col.heap.seq(), ent1(r->0))
            && (forall|x: M::RowT| #![trigger coef(pairs(final(self).bh_col.heap.seq()), x)] coef(pairs(final(self).bh_col.heap.seq()), x) == (if x == (r->0).1 { None } else { coef(pairs(old(self).bh_col.heap.seq()), x) }))
            && final(self).bh_col.heap.seq().len() < old(self).bh_col.heap.seq().len(),
        within(final(self).bh_col.heap.seq(), old(self).bh_col.heap.seq()),
@start
    proof { unit_consistent(self.bh_col.heap.seq()); }
@end
    proof { if vp_ret is Some { unit_all(); } }
@@fn <ConsolidatorColumn as Iterator>::vp_drain
@ret r
@spec
    requires is_ring::<M::CoefficientField>(),
    ensures
        eqv(r@, pairs(self.bh_col.heap.seq())),
        distinct_rows(r@),
        forall|i: int| 0 <= i < r@.len() ==> has_row(pairs(self.bh_col.heap.seq()), (#[trigger] r@[i]).1),
@start
    let ghost s0 = self.bh_col.heap.seq();
    proof { M::RowT::lawful_elem(); unit_lawful(); unit_consistent(s0); }
@before loop#0
    proof { assert(pairs(ents1(vp_out@)) =~= Seq::empty()); }
@loop 0
    invariant
        is_ring::<M::CoefficientField>(), consistent(s0), lawful::<M::RowT>(), lawful::<Unit>(),
        drain_inv(s0, vp_self.bh_col.heap.seq(), ents1(vp_out@)),
    ensures
        vp_self.bh_col.heap.seq().len() == 0,
    decreases vp_self.bh_col.heap.seq().len(),
@loopstart 0
    let ghost h0 = vp_self.bh_col.heap.seq();
    let ghost o0 = vp_out@;
@before push
    proof {
        unit_consistent(vp_self.bh_col.heap.seq());
        lemma_drain(s0, h0, vp_self.bh_col.heap.seq(), ents1(o0), ent1(vp_x));
        assert(ents1(o0.push(vp_x)) =~= ents1(o0).push(ent1(vp_x)));
    }
@after loop#0
    proof {
        lemma_drained(s0, vp_self.bh_col.heap.seq(), ents1(vp_out@));
        assert(pairs(ents1(vp_out@)) =~= vp_out@);
        unit_consistent(ents1(vp_out@));
        decreasing_distinct(ents1(vp_out@));
        assert forall|i: int| 0 <= i < vp_out@.len() implies has_row(pairs(s0), (#[trigger] vp_out@[i]).1) by {
            assert(ents1(vp_out@)[i].row_index == vp_out@[i].1);
            let e = ents1(vp_out@)[i];
            assert(has_key(s0, e.filtration_value, e.row_index));
            let k = choose|k: int| 0 <= k < s0.len() && (#[trigger] s0[k]).row_index == e.row_index && s0[k].filtration_value == e.filtration_value;
            assert(pairs(s0)[k].1 == e.row_index);
        }
    }
@@inside <WithCachedCols as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() && forall|m: HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>| #[trigger] self.cache.pred()(m) <==> cache_ok(self.oracle, m@) }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.oracle.m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.oracle.m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.oracle.m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.oracle.m_at(col, row) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <WithCachedCols as MatrixOracle>::column
@start
    proof {
        M::ColT::lawful_elem(); lawful_clone::<M::ColT>();
        self.oracle.m_ring(); axiom_clone_coef::<M::CoefficientField>(); M::RowT::lawful_elem(); axiom_clone_lawful::<M::RowT>();
        axiom_clone_pair::<M::CoefficientField, M::RowT>(); axiom_clone_vec::<(M::CoefficientField, M::RowT)>(); axiom_clone_use::<Vec<(M::CoefficientField, M::RowT)>>(); axiom_clone_use::<(M::CoefficientField, M::RowT)>();
    }
@@inside <WithCachedCols as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.oracle.f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { self.oracle.f_val(row) }
@@fn <WithCachedCols as HasRowFiltration>::filtration_value
@@inside <WithCachedCols as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.oracle.c_wf() }
    open spec fn m_basis(&self) -> Self::BasisT { self.oracle.m_basis() }
@@fn <WithCachedCols as HasColBasis>::basis
@@inside <MatrixWithBasis as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.matrix.m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.matrix.m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.matrix.m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.matrix.m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.matrix.m_at(col, row) }
    proof fn m_ring(&self) { self.matrix.m_ring(); }
@@fn <MatrixWithBasis as MatrixOracle>::column
@@inside <MatrixWithBasis as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.matrix.f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { self.matrix.f_val(row) }
@@fn <MatrixWithBasis as HasRowFiltration>::filtration_value
@@fn MatrixWithBasis::new
@ret r
@spec
    ensures r.matrix == matrix, r.basis == basis,
@@inside <MatrixWithBasis as HasColBasis>
    open spec fn c_wf(&self) -> bool { true }
    open spec fn m_basis(&self) -> Self::BasisT { self.basis }
@@fn <MatrixWithBasis as HasColBasis>::basis
@@inside <UsingColBasisIndex as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() && self.oracle.c_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { col < self.oracle.m_basis().b_seq().len() && self.oracle.m_dom(self.oracle.m_basis().b_seq()[col as int]) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.oracle.m_col(self.oracle.m_basis().b_seq()[col as int]) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.oracle.m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.oracle.m_at(self.oracle.m_basis().b_seq()[col as int], row) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <UsingColBasisIndex as MatrixOracle>::column
@@inside <UsingColBasisIndex as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.oracle.f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { self.oracle.f_val(row) }
@@fn <UsingColBasisIndex as HasRowFiltration>::filtration_value
@@inside <WithSubBasis as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.oracle.m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.oracle.m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.oracle.m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.oracle.m_at(col, row) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <WithSubBasis as MatrixOracle>::column
@@inside <WithSubBasis as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.oracle.f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { self.oracle.f_val(row) }
@@fn <WithSubBasis as HasRowFiltration>::filtration_value
@@inside <WithSubBasis as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.oracle.c_wf() && self.dimension < self.oracle.m_basis().b_dims() }
    open spec fn m_basis(&self) -> Self::BasisT { self.oracle.m_basis().b_sub(self.dimension as int) }
@@fn <WithSubBasis as HasColBasis>::basis
@@inside <SubBasisRefInner as Deref>
    open spec fn hok(self) -> bool { self.total_basis.hok() && self.dimension < self.total_basis.hv().b_dims() }
    open spec fn hv(self) -> B::SubBasisT { self.total_basis.hv().b_sub(self.dimension as int) }
@@fn <SubBasisRefInner as Deref>::deref
@@inside <SubBasisRef as Deref>
    open spec fn hok(self) -> bool { self.0.hok() }
    open spec fn hv(self) -> <M::BasisT as SplitByDimension>::SubBasisT { self.0.hv() }
@@fn <SubBasisRef as Deref>::deref
@@inside <ReverseBasis as Deref>
    open spec fn hok(self) -> bool { self.0.hok() }
    open spec fn hv(self) -> ReverseBasis<B> { ReverseBasis(self.0.hv()) }
@@fn <ReverseBasis as Deref>::deref
@@inside <UnreverseBasis as Deref>
    open spec fn hok(self) -> bool { self.0.hok() }
    open spec fn hv(self) -> UnreverseBasis<B> { UnreverseBasis(self.0.hv()) }
@@fn <UnreverseBasis as Deref>::deref
@@fn ReverseMatrix::unreverse
@ret r
@spec
    ensures r == self.oracle,
@@inside <ReverseMatrix as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.oracle.m_dom(col.0) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { rev_rows(self.oracle.m_col(col.0)) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.oracle.m_row(row.0) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.oracle.m_at(col.0, row.0) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <ReverseMatrix as MatrixOracle>::column
@closureparam 0 vpa0_0: (M::CoefficientField, M::RowT)
@closure 0 r: (M::CoefficientField, Reverse<M::RowT>)
    ensures r == (vpa0_0.0, Reverse(vpa0_0.1))
@end
    proof {
        let m = self.oracle.m_col(col.0);
        assert forall|c: Seq<(M::CoefficientField, M::RowT)>| #[trigger] eqv(c, m) && c.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] vp_ret@[i]) == (c[i].0, Reverse(c[i].1))) implies eqv(vp_ret@, self.m_col(col)) by {
            assert(vp_ret@ =~= rev_rows(c)); eqv_rev(c, m);
        }
    }
@@inside <ReverseMatrix as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.oracle.f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { Reverse(self.oracle.f_val(row.0)) }
@@fn <ReverseMatrix as HasRowFiltration>::filtration_value
@@fn <ReverseMatrix as HasRowFiltration>::column_with_filtration
@closureparam 0 vp_e: ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>
@closure 0 r: ColumnEntry<Reverse<M::FiltrationT>, Reverse<M::RowT>, M::CoefficientField>
    ensures r == (ColumnEntry { filtration_value: Reverse(vp_e.filtration_value), row_index: Reverse(vp_e.row_index), coeff: vp_e.coeff })
@end
    proof {
        let m = self.oracle.m_col(col.0);
        assert forall|c: Seq<ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>>| #[trigger] eqv(pairs(c), m) && c.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] vp_ret@[i]) == (ColumnEntry { filtration_value: Reverse(c[i].filtration_value), row_index: Reverse(c[i].row_index), coeff: c[i].coeff })) implies eqv(pairs(vp_ret@), self.m_col(col)) by {
            assert(pairs(vp_ret@) =~= rev_rows(pairs(c))); eqv_rev(pairs(c), m);
        }
    }
@@inside <ReverseMatrix as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.oracle.c_wf() }
    open spec fn m_basis(&self) -> Self::BasisT { ReverseBasis(self.oracle.m_basis()) }
@@fn <ReverseMatrix as HasColBasis>::basis
@@fn ReverseBasis::unreverse
@ret r
@spec
    ensures r == self.0,
@@inside <ReverseBasis as ColBasis>
    open spec fn b_seq(&self) -> Seq<Self::ElemT> { rev_seq(self.0.b_seq()) }
@@fn <ReverseBasis as ColBasis>::element
@@fn <ReverseBasis as ColBasis>::size
@@inside <ReverseBasis as SplitByDimension>
    open spec fn b_dims(&self) -> nat { self.0.b_dims() }
    open spec fn b_sub(&self, d: int) -> Self::SubBasisT { ReverseBasis(self.0.b_sub(d)) }
@@fn <ReverseBasis as SplitByDimension>::in_dimension
@@inside <UnreverseMatrix as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.oracle.m_wf() }
    open spec fn m_dom(&self, col: ColT) -> bool { self.oracle.m_dom(Reverse(col)) }
    open spec fn m_col(&self, col: ColT) -> Seq<(M::CoefficientField, RowT)> { unrev_rows(self.oracle.m_col(Reverse(col))) }
    open spec fn m_row(&self, row: RowT) -> bool { self.oracle.m_row(Reverse(row)) }
    open spec fn m_at(&self, col: ColT, row: RowT) -> bool { self.oracle.m_at(Reverse(col), Reverse(row)) }
    proof fn m_ring(&self) { self.oracle.m_ring(); }
@@fn <UnreverseMatrix as MatrixOracle>::column
@closureparam 0 vpa0_0: (M::CoefficientField, Reverse<RowT>)
@closure 0 r: (M::CoefficientField, RowT)
    ensures r == (vpa0_0.0, vpa0_0.1.0)
@end
    proof {
        let m = self.oracle.m_col(Reverse(col));
        assert forall|c: Seq<(M::CoefficientField, Reverse<RowT>)>| #[trigger] eqv(c, m) && c.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] vp_ret@[i]) == (c[i].0, c[i].1.0)) implies eqv(vp_ret@, self.m_col(col)) by {
            assert(vp_ret@ =~= unrev_rows(c)); eqv_unrev(c, m);
        }
    }
@@inside <UnreverseMatrix as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.oracle.f_wf() }
    open spec fn f_val(&self, row: RowT) -> FilT { self.oracle.f_val(Reverse(row)).0 }
@@fn <UnreverseMatrix as HasRowFiltration>::filtration_value
@@fn <UnreverseMatrix as HasRowFiltration>::column_with_filtration
@closureparam 0 vp_e: ColumnEntry<Reverse<FilT>, Reverse<RowT>, M::CoefficientField>
@closure 0 r: ColumnEntry<FilT, RowT, M::CoefficientField>
    ensures r == (ColumnEntry { filtration_value: vp_e.filtration_value.0, row_index: vp_e.row_index.0, coeff: vp_e.coeff })
@end
    proof {
        let m = self.oracle.m_col(Reverse(col));
        assert forall|c: Seq<ColumnEntry<Reverse<FilT>, Reverse<RowT>, M::CoefficientField>>| #[trigger] eqv(pairs(c), m) && c.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] vp_ret@[i]) == (ColumnEntry { filtration_value: c[i].filtration_value.0, row_index: c[i].row_index.0, coeff: c[i].coeff })) implies eqv(pairs(vp_ret@), self.m_col(col)) by {
            assert(pairs(vp_ret@) =~= unrev_rows(pairs(c))); eqv_unrev(pairs(c), m);
        }
    }
@@inside <UnreverseMatrix as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.oracle.c_wf() }
    open spec fn m_basis(&self) -> UnreverseBasis<BasisT> { UnreverseBasis(self.oracle.m_basis()) }
@@fn <UnreverseMatrix as HasColBasis>::basis
@@inside <UnreverseBasis as ColBasis>
    open spec fn b_seq(&self) -> Seq<T> { unrev_seq(self.0.b_seq()) }
@@fn <UnreverseBasis as ColBasis>::element
@@fn <UnreverseBasis as ColBasis>::size
@@inside <UnreverseBasis as SplitByDimension>
    open spec fn b_dims(&self) -> nat { self.0.b_dims() }
    open spec fn b_sub(&self, d: int) -> UnreverseBasis<SbT> { UnreverseBasis(self.0.b_sub(d)) }
@@fn <UnreverseBasis as SplitByDimension>::in_dimension

@@append
/// what the cache may contain: columns of the wrapped matrix
pub open spec fn cache_ok<M: MatrixOracle>(o: M, m: Map<M::ColT, Vec<(M::CoefficientField, M::RowT)>>) -> bool {
    forall|k: M::ColT| #[trigger] m.dom().contains(k) ==> col_ok(o, k, m[k]@)
}
/// `s` denotes column `k` of `o`
pub open spec fn col_ok<M: MatrixOracle>(o: M, k: M::ColT, s: Seq<(M::CoefficientField, M::RowT)>) -> bool {
    &&& o.m_dom(k)
    &&& eqv(s, o.m_col(k))
    &&& forall|i: int| 0 <= i < s.len() ==> o.m_row((#[trigger] s[i]).1) && o.m_at(k, s[i].1)
}
impl<B> VpCast<ReverseBasis<B>> for B { open spec fn wrapped(self) -> ReverseBasis<B> { ReverseBasis(self) } }
impl<B> VpCast<UnreverseBasis<B>> for B { open spec fn wrapped(self) -> UnreverseBasis<B> { UnreverseBasis(self) } }
pub open spec fn rev_rows<C, R>(s: Seq<(C, R)>) -> Seq<(C, Reverse<R>)> { Seq::new(s.len(), |i: int| (s[i].0, Reverse(s[i].1))) }
pub open spec fn unrev_rows<C, R>(s: Seq<(C, Reverse<R>)>) -> Seq<(C, R)> { Seq::new(s.len(), |i: int| (s[i].0, s[i].1.0)) }
pub open spec fn rev_seq<T>(s: Seq<T>) -> Seq<Reverse<T>> { Seq::new(s.len(), |i: int| Reverse(s[s.len() - 1 - i])) }
pub open spec fn unrev_seq<T>(s: Seq<Reverse<T>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i].0) }
pub proof fn coef_rev<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, r: R)
    ensures coef(rev_rows(s), Reverse(r)) == coef(s, r),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(rev_rows(s).drop_last() =~= rev_rows(s.drop_last()));
        coef_rev(s.drop_last(), r);
    }
}
pub proof fn coef_unrev<C: NonZeroCoefficient, R>(s: Seq<(C, Reverse<R>)>, r: R)
    ensures coef(unrev_rows(s), r) == coef(s, Reverse(r)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(unrev_rows(s).drop_last() =~= unrev_rows(s.drop_last()));
        coef_unrev(s.drop_last(), r);
    }
}
pub proof fn eqv_rev<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, t: Seq<(C, R)>)
    requires eqv(s, t),
    ensures eqv(rev_rows(s), rev_rows(t)),
{
    assert forall|x: Reverse<R>| #[trigger] coef(rev_rows(s), x) == coef(rev_rows(t), x) by { coef_rev(s, x.0); coef_rev(t, x.0); assert(coef(s, x.0) == coef(t, x.0)); }
}
pub proof fn eqv_unrev<C: NonZeroCoefficient, R>(s: Seq<(C, Reverse<R>)>, t: Seq<(C, Reverse<R>)>)
    requires eqv(s, t),
    ensures eqv(unrev_rows(s), unrev_rows(t)),
{
    assert forall|x: R| #[trigger] coef(unrev_rows(s), x) == coef(unrev_rows(t), x) by { coef_unrev(s, x); coef_unrev(t, x); assert(coef(s, Reverse(x)) == coef(t, Reverse(x))); }
}
pub open spec fn ent1<C, R: BasisElement>(x: (C, R)) -> ColumnEntry<Unit, R, C> { ColumnEntry { filtration_value: Unit, row_index: x.1, coeff: x.0 } }
pub open spec fn ents1<C, R: BasisElement>(s: Seq<(C, R)>) -> Seq<ColumnEntry<Unit, R, C>> { Seq::new(s.len(), |i: int| ent1(s[i])) }
pub proof fn unit_all()
    ensures forall|u: Unit| #[trigger] is_unit(u),
{ }
pub open spec fn is_unit(u: Unit) -> bool { u == Unit }
pub proof fn unit_consistent<C, R: BasisElement>(s: Seq<ColumnEntry<Unit, R, C>>)
    ensures consistent(s),
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).row_index == (#[trigger] s[j]).row_index implies s[i].filtration_value == s[j].filtration_value by { assert(s[i].filtration_value == Unit); assert(s[j].filtration_value == Unit); }
}
