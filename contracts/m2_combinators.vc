@@file phlite/src/matrices/combinators.rs combinators
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::heap::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;

@@fn product
@ret r
@spec
    ensures r.left == left, r.right == right,
@@inside <Product as MatrixOracle>
    open spec fn m_wf(&self) -> bool {
        self.left.m_wf() && self.right.m_wf()
    }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.right.m_dom(col) && forall|x: M1::ColT| #[trigger] self.right.m_at(col, x) ==> self.left.m_dom(x) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { mulcol(dmap(&self.left), self.right.m_col(col)) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.left.m_row(row) }
    proof fn m_ring(&self) { self.left.m_ring(); }
@@fn <Product as MatrixOracle>::column
@start
    proof { self.left.m_ring(); ring_exec::<M1::CoefficientField>(); }
@closureparam 0 vpa0_0: (M1::CoefficientField, M1::ColT)
@closure 0 r: It<(M1::CoefficientField, M1::RowT)>
    requires self.left.m_dom(vpa0_0.1)
    ensures
        is_scaled(r@, self.left.m_col(vpa0_0.1), vpa0_0.0),
        forall|i: int| 0 <= i < r@.len() ==> self.left.m_row((#[trigger] r@[i]).1)
@closurestart 0
    proof { ring_exec::<M1::CoefficientField>(); }
@closureend 0
    proof {
        assert forall|u: Seq<(M1::CoefficientField, M1::RowT)>| #[trigger] eqv(u, self.left.m_col(vpa0_0.1)) && u.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < u.len() ==> (#[trigger] vp_ret@[i]) == (<M1::CoefficientField as MulSpec<M1::CoefficientField>>::mul_spec(u[i].0, vpa0_0.0), u[i].1)) implies
            is_scaled(vp_ret@, self.left.m_col(vpa0_0.1), vpa0_0.0) by { scaled_by_terms(vp_ret@, u, self.left.m_col(vpa0_0.1), vpa0_0.0); }
    }
@closureparam 1 vpa1_0: (M1::CoefficientField, M1::RowT)
@closure 1 r: (M1::CoefficientField, M1::RowT)
    requires is_ring::<M1::CoefficientField>()
    ensures r == (<M1::CoefficientField as MulSpec<M1::CoefficientField>>::mul_spec(vpa1_0.0, vpa0_0.0), vpa1_0.1)
@closurestart 1
    proof { ring_exec::<M1::CoefficientField>(); }
@end
    proof {
        let a = dmap(&self.left);
        let t = self.right.m_col(col);
        assert forall|s: Seq<(M1::CoefficientField, M1::ColT)>, parts: Seq<Seq<(M1::CoefficientField, M1::RowT)>>|
            #![trigger eqv(s, t), flat(parts)]
            eqv(s, t) && parts.len() == s.len() && vp_ret@ == flat(parts)
            && (forall|i: int| 0 <= i < s.len() ==> is_scaled(#[trigger] parts[i], self.left.m_col(s[i].1), s[i].0)) implies eqv(vp_ret@, self.m_col(col)) by { flat_scaled(a, s, parts, t); }
        assert forall|parts: Seq<Seq<(M1::CoefficientField, M1::RowT)>>| vp_ret@ == #[trigger] flat(parts)
            && (forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() ==> self.left.m_row((#[trigger] parts[i][j]).1)) implies
            (forall|i: int| 0 <= i < vp_ret@.len() ==> self.m_row((#[trigger] vp_ret@[i]).1)) by { flat_all(parts, |x: (M1::CoefficientField, M1::RowT)| self.left.m_row(x.1)); }
    }
@@inside <Product as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { self.left.f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { self.left.f_val(row) }
@@fn <Product as HasRowFiltration>::filtration_value
@@fn <Product as HasRowFiltration>::column_with_filtration
@start
    proof { self.left.m_ring(); ring_exec::<M1::CoefficientField>(); }
@closureparam 0 vpa0_0: (M1::CoefficientField, M1::ColT)
@closure 0 r: It<ColumnEntry<M1::FiltrationT, M1::RowT, M1::CoefficientField>>
    requires self.left.m_dom(vpa0_0.1)
    ensures
        is_scaled(pairs(r@), self.left.m_col(vpa0_0.1), vpa0_0.0),
        forall|i: int| 0 <= i < r@.len() ==> self.left.m_row((#[trigger] r@[i]).row_index) && r@[i].filtration_value == self.left.f_val(r@[i].row_index),
@closurestart 0
    proof { ring_exec::<M1::CoefficientField>(); }
@closureend 0
    proof {
        assert forall|u: Seq<ColumnEntry<M1::FiltrationT, M1::RowT, M1::CoefficientField>>| #[trigger] eqv(pairs(u), self.left.m_col(vpa0_0.1)) && u.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < u.len() ==> (#[trigger] vp_ret@[i]).coeff == <M1::CoefficientField as MulSpec<M1::CoefficientField>>::mul_spec(u[i].coeff, vpa0_0.0) && vp_ret@[i].row_index == u[i].row_index) implies
            is_scaled(pairs(vp_ret@), self.left.m_col(vpa0_0.1), vpa0_0.0) by { scaled_by_terms(pairs(vp_ret@), pairs(u), self.left.m_col(vpa0_0.1), vpa0_0.0); }
    }
@closureparam 1 vp_e: ColumnEntry<M1::FiltrationT, M1::RowT, M1::CoefficientField>
@closure 1 r: ColumnEntry<M1::FiltrationT, M1::RowT, M1::CoefficientField>
    requires is_ring::<M1::CoefficientField>()
    ensures r.coeff == <M1::CoefficientField as MulSpec<M1::CoefficientField>>::mul_spec(vp_e.coeff, vpa0_0.0), r.row_index == vp_e.row_index, r.filtration_value == vp_e.filtration_value,
@closurestart 1
    proof { ring_exec::<M1::CoefficientField>(); }
@end
    proof {
        let a = dmap(&self.left);
        let t = self.right.m_col(col);
        assert forall|s: Seq<(M1::CoefficientField, M1::ColT)>, parts: Seq<Seq<ColumnEntry<M1::FiltrationT, M1::RowT, M1::CoefficientField>>>|
            #![trigger eqv(s, t), flat(parts)]
            eqv(s, t) && parts.len() == s.len() && vp_ret@ == flat(parts)
            && (forall|i: int| 0 <= i < s.len() ==> is_scaled(pairs(#[trigger] parts[i]), self.left.m_col(s[i].1), s[i].0)) implies eqv(pairs(vp_ret@), self.m_col(col)) by {
            flat_pairs(parts);
            let pp = Seq::new(parts.len(), |i: int| pairs(parts[i]));
            assert forall|i: int| 0 <= i < s.len() implies is_scaled(#[trigger] pp[i], a(s[i].1), s[i].0) by { assert(is_scaled(pairs(parts[i]), self.left.m_col(s[i].1), s[i].0)); }
            flat_scaled(a, s, pp, t);
        }
        assert forall|parts: Seq<Seq<ColumnEntry<M1::FiltrationT, M1::RowT, M1::CoefficientField>>>| vp_ret@ == #[trigger] flat(parts)
            && (forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() ==> self.left.m_row((#[trigger] parts[i][j]).row_index) && parts[i][j].filtration_value == self.left.f_val(parts[i][j].row_index)) implies
            (forall|i: int| 0 <= i < vp_ret@.len() ==> self.m_row((#[trigger] vp_ret@[i]).row_index) && vp_ret@[i].filtration_value == self.f_val(vp_ret@[i].row_index)) by {
            flat_all(parts, |x: ColumnEntry<M1::FiltrationT, M1::RowT, M1::CoefficientField>| self.left.m_row(x.row_index) && x.filtration_value == self.left.f_val(x.row_index)); }
    }
@@inside <Product as HasColBasis>
    open spec fn c_wf(&self) -> bool { self.right.c_wf() }
    open spec fn m_basis(&self) -> Self::BasisT { self.right.m_basis() }
@@fn <Product as HasColBasis>::basis

@@fn sum
@ret r
@spec
    ensures r.left == left, r.right == right,
@@inside <Sum as MatrixOracle>
    open spec fn m_wf(&self) -> bool { self.left.m_wf() && self.right.m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { self.left.m_dom(col) && self.right.m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { self.left.m_col(col) + self.right.m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { self.left.m_row(row) || self.right.m_row(row) }
    proof fn m_ring(&self) { self.left.m_ring(); }
@@fn <Sum as MatrixOracle>::column
@start
    proof { self.left.m_ring(); M1::ColT::lawful_elem(); lawful_clone::<M1::ColT>(); }
@end
    proof {
        let (a, b) = (self.left.m_col(col), self.right.m_col(col));
        assert forall|s: Seq<(M1::CoefficientField, M1::RowT)>, t: Seq<(M1::CoefficientField, M1::RowT)>|
            #![trigger eqv(s, a), eqv(t, b)]
            eqv(s, a) && eqv(t, b) && vp_ret@ == s + t implies eqv(vp_ret@, self.m_col(col)) by {
            assert forall|r: M1::RowT| #[trigger] coef(s + t, r) == coef(a + b, r) by { coef_append(s, t, r); coef_append(a, b, r); assert(coef(s, r) == coef(a, r)); assert(coef(t, r) == coef(b, r)); }
        }
    }

@@append
pub proof fn flat_pairs<F: FiltrationValue, R: BasisElement, CF>(parts: Seq<Seq<ColumnEntry<F, R, CF>>>)
    ensures pairs(flat(parts)) == flat(Seq::new(parts.len(), |i: int| pairs(parts[i]))),
    decreases parts.len(),
{
    let pp = Seq::new(parts.len(), |i: int| pairs(parts[i]));
    if parts.len() > 0 {
        flat_pairs(parts.drop_last());
        assert(pp.drop_last() =~= Seq::new(parts.drop_last().len(), |i: int| pairs(parts.drop_last()[i])));
        assert(pairs(flat(parts)) =~= pairs(flat(parts.drop_last())) + pairs(parts.last()));
    } else { assert(pairs(flat(parts)) =~= flat(pp)); }
}
