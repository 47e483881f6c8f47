@@file phlite/src/matrices/mod.rs matrices
@@provided MatrixOracle
@@provided ColBasis
@@provided HasColBasis
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::heap::*;
use crate::fields::*;
use crate::columns::*;
use crate::adaptors::*;
use core::cmp::Ordering;
use std::sync::Arc;
use std::rc::Rc;
use vstd::std_specs::cmp::*;
@@inside BasisElement
    proof fn lawful_elem()
        ensures lawful::<Self>();
@@inside FiltrationValue
    proof fn lawful_filt()
        ensures lawful::<Self>();
@@inside <usize as BasisElement>
    proof fn lawful_elem() { reveal(lawful); }
@@inside <isize as BasisElement>
    proof fn lawful_elem() { reveal(lawful); }
@@inside <Reverse as BasisElement>
    proof fn lawful_elem() { T::lawful_elem(); reverse_lawful::<T>(); }
@@inside <usize as FiltrationValue>
    proof fn lawful_filt() { reveal(lawful); }
@@inside <isize as FiltrationValue>
    proof fn lawful_filt() { reveal(lawful); }
@@inside <Unit as FiltrationValue>
    proof fn lawful_filt() { unit_lawful(); }
@@inside <NotNan as FiltrationValue>
    proof fn lawful_filt() { axiom_notnan_lawful::<Self>(); }
@@inside <Reverse as FiltrationValue>
    proof fn lawful_filt() { T::lawful_filt(); reverse_lawful::<T>(); }

## ---------------------------------------------------------------- the oracle
@@inside MatrixOracle
    /// everything the matrix relies on (shapes match, coefficients form a ring, ..)
    spec fn m_wf(&self) -> bool;
    /// the columns that may be requested
    spec fn m_dom(&self, col: Self::ColT) -> bool;
    /// the linear combination the matrix assigns to a column
    spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)>;
    /// the rows that may be reported
    spec fn m_row(&self, row: Self::RowT) -> bool;
    /// the rows that one column may report
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { self.m_row(row) }
    proof fn m_ring(&self)
        requires self.m_wf(),
        ensures is_ring::<Self::CoefficientField>();
@@fn MatrixOracle::column
@ret r
@spec
    requires self.m_wf(), self.m_dom(col),
    ensures
        eqv(r@, self.m_col(col)),
        forall|i: int| 0 <= i < r@.len() ==> self.m_row((#[trigger] r@[i]).1) && self.m_at(col, r@[i].1),
@@fn MatrixOracle::eq_on_col
@ret r
@spec
    requires self.m_wf(), other.m_wf(), self.m_dom(col), other.m_dom(col),
    ensures r == eqv(self.m_col(col), other.m_col(col)),
@start
    proof {
        self.m_ring(); Self::RowT::lawful_elem(); lawful_clone::<Self::RowT>(); Self::ColT::lawful_elem(); lawful_clone::<Self::ColT>(); unit_lawful();
        axiom_eq_triple::<Self::CoefficientField, Self::RowT>();
    }
@closureparam 0 vp_x: ColumnEntry<Unit, Self::RowT, Self::CoefficientField>
@closure 0 r: (Self::CoefficientField, Self::RowT, Unit)
    ensures r == (vp_x.coeff, vp_x.row_index, vp_x.filtration_value)
@closureparam 1 vp_x: ColumnEntry<Unit, Self::RowT, Self::CoefficientField>
@closure 1 r: (Self::CoefficientField, Self::RowT, Unit)
    ensures r == (vp_x.coeff, vp_x.row_index, vp_x.filtration_value)
@end
    proof {
        lemma_eq_on_col::<Self::CoefficientField, Self::RowT>(self.m_col(col), other.m_col(col));
    }
@@fn MatrixOracle::with_trivial_filtration
@ret r
@spec
    ensures r.oracle == self,
@@fn MatrixOracle::with_filtration
@ret r
@spec
    ensures r.oracle == self, r.filtration == filtration_function,
@@fn MatrixOracle::with_basis
@ret r
@spec
    ensures r.matrix == self, r.basis == basis,
@@fn MatrixOracle::using_col_basis_index
@ret r
@spec
    ensures r.oracle == self,
@@fn MatrixOracle::reverse
@ret r
@spec
    ensures r.oracle == self,
@@fn MatrixOracle::unreverse
@ret r
@spec
    ensures r.oracle == self,
@@fn MatrixOracle::consolidate
@ret r
@spec
    ensures r.oracle == self,
@@fn MatrixOracle::cache_cols
@ret r
@spec
    ensures r.oracle == self, self.m_wf() ==> r.m_wf(),
@cell 0
    |m: HashMap<Self::ColT, Vec<(Self::CoefficientField, Self::RowT)>>| cache_ok(self, m@)

@@inside <& as MatrixOracle>
    open spec fn m_wf(&self) -> bool { (**self).m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { (**self).m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { (**self).m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { (**self).m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { (**self).m_at(col, row) }
    proof fn m_ring(&self) { (**self).m_ring(); }
@@fn <& as MatrixOracle>::column
@@inside <Rc as MatrixOracle>
    open spec fn m_wf(&self) -> bool { (**self).m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { (**self).m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { (**self).m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { (**self).m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { (**self).m_at(col, row) }
    proof fn m_ring(&self) { (**self).m_ring(); }
@@fn <Rc as MatrixOracle>::column
@@inside <Arc as MatrixOracle>
    open spec fn m_wf(&self) -> bool { (**self).m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { (**self).m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { (**self).m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { (**self).m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { (**self).m_at(col, row) }
    proof fn m_ring(&self) { (**self).m_ring(); }
@@fn <Arc as MatrixOracle>::column
@@inside <Box as MatrixOracle>
    open spec fn m_wf(&self) -> bool { (**self).m_wf() }
    open spec fn m_dom(&self, col: Self::ColT) -> bool { (**self).m_dom(col) }
    open spec fn m_col(&self, col: Self::ColT) -> Seq<(Self::CoefficientField, Self::RowT)> { (**self).m_col(col) }
    open spec fn m_row(&self, row: Self::RowT) -> bool { (**self).m_row(row) }
    open spec fn m_at(&self, col: Self::ColT, row: Self::RowT) -> bool { (**self).m_at(col, row) }
    proof fn m_ring(&self) { (**self).m_ring(); }
@@fn <Box as MatrixOracle>::column

## ---------------------------------------------------------------- row filtrations
@@inside HasRowFiltration
    spec fn f_wf(&self) -> bool;
    /// the filtration value of a row
    spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT;
@@fn HasRowFiltration::filtration_value
@ret r
@spec
    requires self.m_wf(), self.f_wf(), self.m_row(row),
    ensures r == self.f_val(row),
@@fn HasRowFiltration::column_with_filtration
@ret r
@spec
    requires self.m_wf(), self.f_wf(), self.m_dom(col),
    ensures
        eqv(pairs(r@), self.m_col(col)),
        fil_by(r@, |x: Self::RowT| self.f_val(x)),
        forall|i: int| 0 <= i < r@.len() ==> self.m_row((#[trigger] r@[i]).row_index) && self.m_at(col, r@[i].row_index),
@closureparam 0 vpa0_0: (Self::CoefficientField, Self::RowT)
@closure 0 r: ColumnEntry<Self::FiltrationT, Self::RowT, Self::CoefficientField>
    requires self.m_row(vpa0_0.1)
    ensures r == entry_of((vpa0_0.0, vpa0_0.1, self.f_val(vpa0_0.1)))
@closurestart 0
    proof { Self::RowT::lawful_elem(); lawful_clone::<Self::RowT>(); }
@end
    proof {
        assert forall|c: Seq<(Self::CoefficientField, Self::RowT)>| #[trigger] eqv(c, self.m_col(col)) && c.len() == vp_ret@.len()
            && (forall|i: int| 0 <= i < c.len() ==> ((#[trigger] vp_ret@[i]).coeff, vp_ret@[i].row_index) == c[i]) implies eqv(pairs(vp_ret@), self.m_col(col)) by { assert(pairs(vp_ret@) =~= c); }
    }
@@fn HasRowFiltration::empty_bhcol
@ret r
@spec
    ensures r.heap.seq() == Seq::<ColumnEntry<Self::FiltrationT, Self::RowT, Self::CoefficientField>>::empty(),
@@fn HasRowFiltration::build_bhcol
@ret r
@spec
    requires self.m_wf(), self.f_wf(), self.m_dom(col),
    ensures
        eqv(pairs(r.heap.seq()), self.m_col(col)),
        fil_by(r.heap.seq(), |x: Self::RowT| self.f_val(x)),
        forall|i: int| 0 <= i < r.heap.seq().len() ==> self.m_row((#[trigger] r.heap.seq()[i]).row_index),
        consistent(r.heap.seq()),
@end
    proof {
        assert forall|e: Seq<ColumnEntry<Self::FiltrationT, Self::RowT, Self::CoefficientField>>| vp_ret.heap.seq() == #[trigger] (Seq::<ColumnEntry<Self::FiltrationT, Self::RowT, Self::CoefficientField>>::empty() + e) implies vp_ret.heap.seq() == e by {
            assert(Seq::<ColumnEntry<Self::FiltrationT, Self::RowT, Self::CoefficientField>>::empty() + e =~= e);
        }
    }
@@inside <& as HasRowFiltration>
    open spec fn f_wf(&self) -> bool { (**self).f_wf() }
    open spec fn f_val(&self, row: Self::RowT) -> Self::FiltrationT { (**self).f_val(row) }
@@fn <& as HasRowFiltration>::filtration_value

## ---------------------------------------------------------------- bases
@@inside ColBasis
    /// the elements, in order
    spec fn b_seq(&self) -> Seq<Self::ElemT>;
@@fn ColBasis::element
@ret r
@spec
    requires index < self.b_seq().len(),
    ensures r == self.b_seq()[index as int],
@@fn ColBasis::size
@ret r
@spec
    ensures r == self.b_seq().len(),
@@fn ColBasis::construct_reverse_lookup
@ret r
@spec
    ensures lookup_ok(r@, self.b_seq()),
@start
    proof { Self::ElemT::lawful_elem(); }
@closureparam 0 vp_i: usize
@closure 0 r: (Self::ElemT, usize)
    requires vp_i < self.b_seq().len()
    ensures r == (self.b_seq()[vp_i as int], vp_i)
@end
    proof {
        let n = self.b_seq().len();
        lemma_lookup(self.b_seq(), Seq::new(n, |i: int| (self.b_seq()[i], i as usize)));
        assert forall|s: Seq<(Self::ElemT, usize)>| vp_ret@ == #[trigger] map_of(s) && s.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) == (self.b_seq()[i], i as usize)) implies lookup_ok(vp_ret@, self.b_seq()) by {
            assert(s =~= Seq::new(n, |i: int| (self.b_seq()[i], i as usize)));
        }
    }
@@fn ColBasis::reverse
@ret r
@spec
    ensures r.0 == self,
@@fn ColBasis::unreverse
@ret r
@spec
    ensures r.0 == self,
@@inside <Vec as ColBasis>
    open spec fn b_seq(&self) -> Seq<T> { self@ }
@@fn <Vec as ColBasis>::element
@start
    proof { T::lawful_elem(); lawful_clone::<T>(); }
@@fn <Vec as ColBasis>::size
@@inside <& as ColBasis>
    open spec fn b_seq(&self) -> Seq<T::ElemT> { (**self).b_seq() }
@@fn <& as ColBasis>::element
@@fn <& as ColBasis>::size
@@inside HasColBasis
    spec fn c_wf(&self) -> bool;
    spec fn m_basis(&self) -> Self::BasisT;
@@fn HasColBasis::basis
@ret r
@spec
    requires self.c_wf(),
    ensures *r == self.m_basis(),
@@fn HasColBasis::sub_matrix_in_dimension
@ret r
@spec
    ensures r.oracle == self, r.dimension == dimension,
@@inside <& as HasColBasis>
    open spec fn c_wf(&self) -> bool { (**self).c_wf() }
    open spec fn m_basis(&self) -> T::BasisT { (**self).m_basis() }
@@fn <& as HasColBasis>::basis
@@inside SplitByDimension
    spec fn b_dims(&self) -> nat;
    /// the sub-basis in a dimension
    spec fn b_sub(&self, d: int) -> Self::SubBasisT;
@@fn SplitByDimension::in_dimension
@ret r
@spec
    requires dimension < self.b_dims(),
    ensures *r == self.b_sub(dimension as int),
@@inside <& as SplitByDimension>
    open spec fn b_dims(&self) -> nat { (**self).b_dims() }
    open spec fn b_sub(&self, d: int) -> T::SubBasisT { (**self).b_sub(d) }
@@fn <& as SplitByDimension>::in_dimension

@@append
/// the linear map of a matrix, column by column
pub open spec fn dmap<M: MatrixOracle>(m: &M) -> spec_fn(M::ColT) -> Seq<(M::CoefficientField, M::RowT)> { |k: M::ColT| m.m_col(k) }
/// the filtration of the rows of a matrix
pub open spec fn fmap<M: HasRowFiltration>(m: &M) -> spec_fn(M::RowT) -> M::FiltrationT { |x: M::RowT| m.f_val(x) }
/// two descending, fully summed columns that denote the same linear combination are equal
pub proof fn lemma_eq_on_col<C: NonZeroCoefficient, R: BasisElement>(a: Seq<(C, R)>, b: Seq<(C, R)>)
    requires is_ring::<C>(), lawful::<R>(), lawful::<Unit>(),
    ensures forall|s: Seq<ColumnEntry<Unit, R, C>>, t: Seq<ColumnEntry<Unit, R, C>>|
        #![trigger decreasing(s), decreasing(t)]
        decreasing(s) && decreasing(t) && eqv(pairs(s), a) && eqv(pairs(t), b) ==> ((s =~= t) == eqv(a, b)),
{
    assert forall|s: Seq<ColumnEntry<Unit, R, C>>, t: Seq<ColumnEntry<Unit, R, C>>|
        #![trigger decreasing(s), decreasing(t)]
        decreasing(s) && decreasing(t) && eqv(pairs(s), a) && eqv(pairs(t), b) implies ((s =~= t) == eqv(a, b)) by {
        if eqv(a, b) {
            assert(eqv(pairs(s), pairs(t)));
            assert(fil_by(s, |r: R| Unit)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).filtration_value == Unit by { assert(is_unit(s[i].filtration_value)); } }
            assert(fil_by(t, |r: R| Unit)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).filtration_value == Unit by { assert(is_unit(t[i].filtration_value)); } }
            canonical(s, t, |r: R| Unit);
        } else if s == t {
            assert forall|r: R| #[trigger] coef(a, r) == coef(b, r) by { assert(coef(pairs(s), r) == coef(a, r)); assert(coef(pairs(t), r) == coef(b, r)); }
        }
    }
}
/// `m` sends every element of `b` to its (last) position
pub open spec fn lookup_ok<E>(m: Map<E, usize>, b: Seq<E>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> m.dom().contains(#[trigger] b[i])
    &&& forall|e: E| #[trigger] m.dom().contains(e) ==> m[e] < b.len() && b[m[e] as int] == e && forall|j: int| m[e] < j < b.len() ==> #[trigger] b[j] != e
}
pub proof fn lemma_lookup<E>(b: Seq<E>, s: Seq<(E, usize)>)
    requires s.len() == b.len(), b.len() <= usize::MAX, forall|i: int| 0 <= i < b.len() ==> #[trigger] s[i] == (b[i], i as usize),
    ensures lookup_ok(map_of(s), b),
    decreases b.len(),
{
    if b.len() > 0 {
        let b1 = b.drop_last();
        lemma_lookup(b1, s.drop_last());
        let m1 = map_of(s.drop_last());
        let m = map_of(s);
        assert forall|i: int| 0 <= i < b.len() implies m.dom().contains(#[trigger] b[i]) by { if i < b1.len() { assert(b1[i] == b[i]); assert(m1.dom().contains(b1[i])); } }
        assert forall|e: E| #[trigger] m.dom().contains(e) implies m[e] < b.len() && b[m[e] as int] == e && forall|j: int| m[e] < j < b.len() ==> #[trigger] b[j] != e by {
            if e != b.last() {
                assert(m1.dom().contains(e));
                assert(b1[m1[e] as int] == b[m1[e] as int]);
                assert forall|j: int| m[e] < j < b.len() implies #[trigger] b[j] != e by { if j < b1.len() { assert(b1[j] == b[j]); } }
            }
        }
    }
}
