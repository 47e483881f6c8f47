@@file phlite/src/matrices/implementors.rs implementors
@@cowfield columns
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::matrices::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
@@attr MapVecMatrix :: #[verifier::reject_recursive_types(ColT)] #[verifier::reject_recursive_types(CF)] #[verifier::reject_recursive_types(RowT)]
@@skip impl <VecVecMatrix as Debug> -- formatting
@@skip impl <StandardBasis as Deref> -- identity

@@inside <VecVecMatrix as MatrixOracle>
    open spec fn m_wf(&self) -> bool { is_ring::<CF>() }
    open spec fn m_dom(&self, col: usize) -> bool { col < self.columns.cv()@.len() }
    open spec fn m_col(&self, col: usize) -> Seq<(CF, RowT)> { self.columns.cv()@[col as int]@ }
    open spec fn m_row(&self, row: RowT) -> bool { exists|c: int, i: int| 0 <= c < self.columns.cv()@.len() && 0 <= i < self.columns.cv()@[c]@.len() && (#[trigger] self.columns.cv()@[c]@[i]).1 == row }
    proof fn m_ring(&self) { }
@@fn <VecVecMatrix as MatrixOracle>::column
@ret r
@spec
    ensures r@ == self.columns.cv()@[col as int]@,
@start
    proof { axiom_clone_coef::<CF>(); RowT::lawful_elem(); axiom_clone_lawful::<RowT>(); axiom_clone_pair::<CF, RowT>(); }
@end
    proof {
        let c = self.columns.cv()@[col as int]@;
        assert(vp_ret@ =~= c);
        assert forall|i: int| 0 <= i < vp_ret@.len() implies self.m_row((#[trigger] vp_ret@[i]).1) by { assert(self.columns.cv()@[col as int]@[i] == vp_ret@[i]); }
    }
@@inside <VecVecMatrix as HasColBasis>
    open spec fn c_wf(&self) -> bool { true }
    open spec fn m_basis(&self) -> StandardBasis { StandardBasis { n_cols: self.columns.cv()@.len() as usize } }
@@fn <VecVecMatrix as HasColBasis>::basis
@@fn <VecVecMatrix as From<Cow<Vec<Vec<(CF,RowT)>>>>>::from
@ret r
@spec
    ensures r.columns == value,
@@fn <VecVecMatrix as From<&Vec<Vec<(CF,RowT)>>>>::from
@ret r
@spec
    ensures r.columns.cv() == *value,
@@fn <VecVecMatrix as From<Vec<Vec<(CF,RowT)>>>>::from
@ret r
@spec
    ensures r.columns.cv() == value,
@@fn <MapVecMatrix as From<&FxHashMap<ColT,Vec<(CF,RowT)>>>>::from
@ret r
@spec
    ensures r.columns.cv() == *value,
@@fn <MapVecMatrix as From<FxHashMap<ColT,Vec<(CF,RowT)>>>>::from
@ret r
@spec
    ensures r.columns.cv() == value,
@@fn VecVecMatrix::new
@ret r
@spec
    ensures
        r.columns.cv()@.len() == columns.items().len(),
        forall|i: int| 0 <= i < columns.items().len() ==> (#[trigger] r.columns.cv()@[i])@ == columns.items()[i].items(),
@closureparam 0 vp_x: J
@closure 0 r: Vec<(CF, RowT)>
    ensures r@ == vp_x.items()
@@fn VecVecMatrix::new_all_one
@ret r
@spec
    ensures
        r.columns.cv()@.len() == columns.items().len(),
        forall|i: int| 0 <= i < columns.items().len() ==> is_ones((#[trigger] r.columns.cv()@[i])@, columns.items()[i].items()),
@closureparam 0 vp_x: J
@closure 0 r: It<(CF, RowT)>
    ensures is_ones(r@, vp_x.items())
@closureparam 1 vp_y: RowT
@closure 1 r: (CF, RowT)
    ensures r == (CF::one_spec(), vp_y)
@@fn StandardBasis::new
@ret r
@spec
    ensures r.n_cols == n_cols,
@@inside <StandardBasis as ColBasis>
    open spec fn b_seq(&self) -> Seq<usize> { Seq::new(self.n_cols as nat, |i: int| i as usize) }
@@fn <StandardBasis as ColBasis>::element
@@fn <StandardBasis as ColBasis>::size
@@inside <MapVecMatrix as MatrixOracle>
    open spec fn m_wf(&self) -> bool { is_ring::<CF>() }
    open spec fn m_dom(&self, col: ColT) -> bool { self.columns.cv()@.dom().contains(col) }
    open spec fn m_col(&self, col: ColT) -> Seq<(CF, RowT)> { self.columns.cv()@[col]@ }
    open spec fn m_row(&self, row: RowT) -> bool { exists|c: ColT, i: int| self.columns.cv()@.dom().contains(c) && 0 <= i < self.columns.cv()@[c]@.len() && (#[trigger] self.columns.cv()@[c]@[i]).1 == row }
    proof fn m_ring(&self) { }
@@fn <MapVecMatrix as MatrixOracle>::column
@ret r
@spec
    ensures r@ == self.columns.cv()@[col]@,
@start
    proof { axiom_clone_coef::<CF>(); RowT::lawful_elem(); axiom_clone_lawful::<RowT>(); axiom_clone_pair::<CF, RowT>(); }
@end
    proof {
        let c = self.columns.cv()@[col]@;
        assert(vp_ret@ =~= c);
        assert forall|i: int| 0 <= i < vp_ret@.len() implies self.m_row((#[trigger] vp_ret@[i]).1) by { assert(self.columns.cv()@[col]@[i] == vp_ret@[i]); }
    }

@@append
/// the rows `t`, each with coefficient one
pub open spec fn is_ones<C: NonZeroCoefficient, R>(s: Seq<(C, R)>, t: Seq<R>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] s[i] == (C::one_spec(), t[i])
}
impl<'a, CF: NonZeroCoefficient, RowT: BasisElement> FromSpecImpl<Cow<'a, Vec<Vec<(CF, RowT)>>>> for VecVecMatrix<'a, CF, RowT> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Cow<'a, Vec<Vec<(CF, RowT)>>>) -> Self { VecVecMatrix { columns: v } }
}
impl<'a, CF: NonZeroCoefficient, RowT: BasisElement> FromSpecImpl<&'a Vec<Vec<(CF, RowT)>>> for VecVecMatrix<'a, CF, RowT> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Vec<Vec<(CF, RowT)>>) -> Self { VecVecMatrix { columns: Cow::Borrowed(v) } }
}
impl<CF: NonZeroCoefficient, RowT: BasisElement> FromSpecImpl<Vec<Vec<(CF, RowT)>>> for VecVecMatrix<'static, CF, RowT> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<Vec<(CF, RowT)>>) -> Self { VecVecMatrix { columns: Cow::Owned(v) } }
}
impl<'a, CF: NonZeroCoefficient, ColT: BasisElement, RowT: BasisElement> FromSpecImpl<&'a FxHashMap<ColT, Vec<(CF, RowT)>>> for MapVecMatrix<'a, CF, ColT, RowT> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a FxHashMap<ColT, Vec<(CF, RowT)>>) -> Self { MapVecMatrix { columns: Cow::Borrowed(v) } }
}
impl<CF: NonZeroCoefficient, ColT: BasisElement, RowT: BasisElement> FromSpecImpl<FxHashMap<ColT, Vec<(CF, RowT)>>> for MapVecMatrix<'static, CF, ColT, RowT> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: FxHashMap<ColT, Vec<(CF, RowT)>>) -> Self { MapVecMatrix { columns: Cow::Owned(v) } }
}
impl<'a> VpHandle<'a, StandardBasis> for StandardBasis {
    open spec fn hok(self) -> bool { true }
    open spec fn hv(self) -> StandardBasis { self }
    // the handle is the basis itself (impl Deref for StandardBasis is the identity); the model keeps it alive
    #[verifier::external_body]
    fn vp_handle(self) -> (r: &'a StandardBasis) { unimplemented!() }
}
