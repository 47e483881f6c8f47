@@file phlite/src/columns.rs columns
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::heap::*;
use crate::fields::*;
use crate::matrices::*;
use core::cmp::Ordering;
use core::ops::{Add, Mul};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
@@attr BHCol :: #[verifier::reject_recursive_types(FilT)] #[verifier::reject_recursive_types(RowT)] #[verifier::reject_recursive_types(CF)]

@@fn <ColumnEntry as From<(CF,RowT,FilT)>>::from
@@fn <(CF,RowT,FilT) as From<ColumnEntry<FilT,RowT,CF>>>::from
@@fn <ColumnEntry as PartialEq>::eq
@@fn <ColumnEntry as PartialOrd>::partial_cmp
@@fn <ColumnEntry as Ord>::cmp
@ret r
@spec
    ensures RowT::obeys_cmp_spec() && FilT::obeys_cmp_spec() ==> r == entry_cmp(*self, *other),
@@fn <ColumnEntry as Mul<CF>>::mul
@@fn <BHCol as Default>::default
@ret r
@spec
    ensures r.heap.seq() == Seq::<ColumnEntry<FilT, RowT, CF>>::empty(),
@@fn BHCol::add_entry
@spec
    ensures final(self).heap.seq() == old(self).heap.seq().push(entry),
@@fn BHCol::add_entries
@spec
    ensures final(self).heap.seq() =~= old(self).heap.seq() + entries@,
@loop 0
    invariant
        vpit0.seq() == entries0,
        self.heap.seq() =~= heap0 + entries0.take(vpit0.index@),
@start
    let ghost heap0 = self.heap.seq();
    let ghost entries0 = entries@;
@@fn BHCol::add_tuple
@spec
    ensures final(self).heap.seq() == old(self).heap.seq().push(entry_of(tuple)),
@@fn BHCol::add_tuples
@spec
    ensures final(self).heap.seq() =~= old(self).heap.seq() + entries_of(tuples@),
@closureparam 0 vp_x: (CF, RowT, FilT)
@closure 0 r: ColumnEntry<FilT, RowT, CF>
    ensures r == entry_of(vp_x)

@@fn BHCol::pop_pivot
@ret r
@spec
    requires is_ring::<CF>(), consistent(old(self).heap.seq()),
    ensures
        r is None ==> final(self).heap.seq().len() == 0 && vanishes(old(self).heap.seq()),
        r is Some ==> is_pivot(old(self).heap.seq(), r->0)
            && below(final(self).heap.seq(), r->0)
            && (forall|x: RowT| #![trigger coef(pairs(final(self).heap.seq()), x)] coef(pairs(final(self).heap.seq()), x) == (if x == (r->0).row_index { None } else { coef(pairs(old(self).heap.seq()), x) }))
            && final(self).heap.seq().len() < old(self).heap.seq().len(),
        within(final(self).heap.seq(), old(self).heap.seq()),
        consistent(final(self).heap.seq()),
@start
    let ghost s0 = self.heap.seq();
    proof {
        RowT::lawful_elem(); FilT::lawful_filt(); ring_exec::<CF>();
        lawful_eq::<RowT>(); lawful_cmp::<RowT>(); lawful_cmp::<FilT>(); lawful_clone::<RowT>(); lawful_clone::<FilT>();
    }
@after let:first_entry
    proof {
        let i = choose|i: int| #[trigger] heap_max(s0, i) && first_entry == s0[i] && self.heap.seq() == s0.remove(i);
        lemma_pop(s0, i);
    }
@loop 0
    invariant_except_break
        ({ let p = Some((working_index, working_filtration)); pop_inv(s0, self.heap.seq(), working_index, working_filtration, working_sum) }),
    invariant
        is_ring::<CF>(), consistent(s0), lawful::<RowT>(), lawful::<FilT>(),
    ensures
        pop_inv(s0, self.heap.seq(), working_index, working_filtration, working_sum),
        !has_row(pairs(self.heap.seq()), working_index),
        working_sum is None ==> self.heap.seq().len() == 0,
    decreases self.heap.seq().len(),
@loopstart 0
    proof {
        ring_exec::<CF>();
        lawful_eq::<RowT>(); lawful_cmp::<RowT>(); lawful_cmp::<FilT>(); lawful_clone::<RowT>(); lawful_clone::<FilT>();
    }
    let ghost h0 = self.heap.seq();
@before break#0
    proof { assert(pairs(h0).len() == 0); }
@before if#0
    proof {
        let i = choose|i: int| #[trigger] heap_max(h0, i) && *next_entry == h0[i];
        lemma_next(s0, h0, i, working_index, working_filtration, working_sum);
    }
@before pop#1
    let ghost (w1, f1, c1) = (working_index, working_filtration, working_sum);
@after pop#1
    proof {
        let i = choose|i: int| #[trigger] heap_max(h0, i) && next_entry == h0[i] && self.heap.seq() == h0.remove(i);
        lemma_step(s0, h0, i, w1, f1, c1);
    }
@before closure
    proof { lemma_finish(s0, self.heap.seq(), working_index, working_filtration, working_sum); }
@closureparam 0 coeff: CF
@closure 0 r: ColumnEntry<FilT, RowT, CF>
    ensures r.row_index == working_index, r.filtration_value == working_filtration, r.coeff == coeff

@@fn BHCol::drain_sorted
@ret r
@spec
    requires is_ring::<CF>(), consistent(old(self).heap.seq()),
    ensures
        decreasing(r@),
        eqv(pairs(r@), pairs(old(self).heap.seq())),
        within_key(r@, old(self).heap.seq()),
        final(self).heap.seq().len() == 0,
@start
    let ghost s0 = self.heap.seq();
@before loop#0
    proof { RowT::lawful_elem(); FilT::lawful_filt(); assert(pairs(vp_out@) =~= Seq::empty()); }
@loop 0
    invariant
        is_ring::<CF>(), consistent(s0), lawful::<RowT>(), lawful::<FilT>(),
        drain_inv(s0, self.heap.seq(), vp_out@),
    ensures
        self.heap.seq().len() == 0,
    decreases self.heap.seq().len(),
@loopstart 0
    let ghost h0 = self.heap.seq();
    let ghost o0 = vp_out@;
@before push
    proof { lemma_drain(s0, h0, self.heap.seq(), o0, vp_x); }
@after loop#0
    proof { lemma_drained(s0, self.heap.seq(), vp_out@); }

@@fn BHCol::to_sorted_vec
@ret r
@spec
    requires is_ring::<CF>(), consistent(self.heap.seq()),
    ensures
        decreasing(r@),
        eqv(pairs(r@), pairs(self.heap.seq())),
        within_key(r@, self.heap.seq()),

@@fn BHCol::clone_pivot
@ret r
@spec
    requires is_ring::<CF>(), consistent(old(self).heap.seq()),
    ensures
        r is None ==> final(self).heap.seq().len() == 0 && vanishes(old(self).heap.seq()),
        r is Some ==> is_pivot(old(self).heap.seq(), r->0) && settled(final(self).heap.seq(), r->0),
        eqv(pairs(final(self).heap.seq()), pairs(old(self).heap.seq())),
        within_key(final(self).heap.seq(), old(self).heap.seq()),
        consistent(final(self).heap.seq()),
@start
    let ghost s0 = self.heap.seq();
    proof { RowT::lawful_elem(); FilT::lawful_filt(); axiom_clone_entry::<FilT, RowT, CF>(); }
@after let:pivot
    let ghost h1 = self.heap.seq();
@after add_entry
    proof { lemma_clone_pivot(s0, h1, pivot0); }
@before add_entry
    let ghost pivot0 = pivot;
@before let:ret
    proof { assert(pivot == pivot); }

@@fn BHCol::peek_pivot
@ret r
@spec
    ensures
        r is None <==> self.heap.seq().len() == 0,
        r is Some ==> exists|i: int| #[trigger] heap_max(self.heap.seq(), i) && *(r->0) == self.heap.seq()[i],
        forall|e: ColumnEntry<FilT, RowT, CF>| #[trigger] settled(self.heap.seq(), e) ==> r == Some(&e),
@start
    proof { RowT::lawful_elem(); FilT::lawful_filt(); lawful_cmp::<RowT>(); lawful_cmp::<FilT>(); lemma_settled(self.heap.seq()); }

@@append
pub open spec fn entry_of<FilT: FiltrationValue, RowT: BasisElement, CF>(t: (CF, RowT, FilT)) -> ColumnEntry<FilT, RowT, CF> {
    ColumnEntry { filtration_value: t.2, row_index: t.1, coeff: t.0 }
}
pub open spec fn entries_of<FilT: FiltrationValue, RowT: BasisElement, CF>(t: Seq<(CF, RowT, FilT)>) -> Seq<ColumnEntry<FilT, RowT, CF>> {
    Seq::new(t.len(), |i: int| entry_of(t[i]))
}
impl<FilT: FiltrationValue, RowT: BasisElement, CF> FromSpecImpl<(CF, RowT, FilT)> for ColumnEntry<FilT, RowT, CF> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: (CF, RowT, FilT)) -> Self { entry_of(t) }
}
impl<FilT: FiltrationValue, RowT: BasisElement, CF> FromSpecImpl<ColumnEntry<FilT, RowT, CF>> for (CF, RowT, FilT) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ColumnEntry<FilT, RowT, CF>) -> Self { (e.coeff, e.row_index, e.filtration_value) }
}
/// order by filtration value, then row
pub open spec fn entry_cmp<FilT: FiltrationValue, RowT: BasisElement, CF>(a: ColumnEntry<FilT, RowT, CF>, b: ColumnEntry<FilT, RowT, CF>) -> Ordering {
    key_cmp(a.filtration_value, a.row_index, b.filtration_value, b.row_index)
}
pub open spec fn key_cmp<F: FiltrationValue, R: BasisElement>(fa: F, ra: R, fb: F, rb: R) -> Ordering {
    match fa.cmp_spec(&fb) { Ordering::Equal => ra.cmp_spec(&rb), o => o }
}
pub open spec fn key_lt<F: FiltrationValue, R: BasisElement>(fa: F, ra: R, fb: F, rb: R) -> bool { key_cmp(fa, ra, fb, rb) == Ordering::Less }
pub open spec fn entry_lt<FilT: FiltrationValue, RowT: BasisElement, CF>(a: ColumnEntry<FilT, RowT, CF>, b: ColumnEntry<FilT, RowT, CF>) -> bool {
    entry_cmp(a, b) == Ordering::Less
}
impl<FilT: FiltrationValue, RowT: BasisElement, CF> OrdSpecImpl for ColumnEntry<FilT, RowT, CF> {
    open spec fn obeys_cmp_spec() -> bool { RowT::obeys_cmp_spec() && FilT::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { entry_cmp(*self, *other) }
}
impl<FilT: FiltrationValue, RowT: BasisElement, CF> PartialEqSpecImpl for ColumnEntry<FilT, RowT, CF> {
    open spec fn obeys_eq_spec() -> bool { RowT::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.row_index.eq_spec(&other.row_index) }
}
impl<FilT: FiltrationValue, RowT: BasisElement, CF> PartialOrdSpecImpl for ColumnEntry<FilT, RowT, CF> {
    open spec fn obeys_partial_cmp_spec() -> bool { RowT::obeys_cmp_spec() && FilT::obeys_cmp_spec() }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(entry_cmp(*self, *other)) }
}
impl<FilT: FiltrationValue, RowT: BasisElement, CF: NonZeroCoefficient> MulSpecImpl<CF> for ColumnEntry<FilT, RowT, CF> {
    open spec fn obeys_mul_spec() -> bool { <CF as MulSpec<CF>>::obeys_mul_spec() }
    open spec fn mul_req(self, rhs: CF) -> bool { <CF as MulSpec<CF>>::mul_req(self.coeff, rhs) }
    open spec fn mul_spec(self, rhs: CF) -> Self {
        ColumnEntry { filtration_value: self.filtration_value, row_index: self.row_index, coeff: <CF as MulSpec<CF>>::mul_spec(self.coeff, rhs) }
    }
}
// derived in the source: Clone, Copy
impl<FilT: FiltrationValue, RowT: BasisElement, CF: Clone> Clone for ColumnEntry<FilT, RowT, CF> {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
pub axiom fn axiom_clone_entry<FilT: FiltrationValue, RowT: BasisElement, CF: NonZeroCoefficient>() where ColumnEntry<FilT, RowT, CF>: Clone
    requires lawful::<FilT>(), lawful::<RowT>(),
    ensures forall|a: &ColumnEntry<FilT, RowT, CF>, b: ColumnEntry<FilT, RowT, CF>| #[trigger] call_ensures(ColumnEntry::<FilT, RowT, CF>::clone, (a,), b) ==> *a == b;

// ------------------------------------------------------------ columns as linear combinations

pub open spec fn pairs<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>) -> Seq<(CF, R)> {
    Seq::new(s.len(), |i: int| (s[i].coeff, s[i].row_index))
}
/// equal rows carry equal filtration values
pub open spec fn consistent<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).row_index == (#[trigger] s[j]).row_index ==> s[i].filtration_value == s[j].filtration_value
}
/// every row occurring in `s` carries the value `f` gives it
pub open spec fn fil_by<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, f: spec_fn(R) -> F) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).filtration_value == f(s[i].row_index)
}
pub open spec fn has_key<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, f: F, r: R) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).row_index == r && s[i].filtration_value == f
}
/// the entries of `t` are entries of `s`
pub open spec fn within<F: FiltrationValue, R: BasisElement, CF>(t: Seq<ColumnEntry<F, R, CF>>, s: Seq<ColumnEntry<F, R, CF>>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i])
}
/// the rows (with filtration value) of `t` are rows of `s`
pub open spec fn within_key<F: FiltrationValue, R: BasisElement, CF>(t: Seq<ColumnEntry<F, R, CF>>, s: Seq<ColumnEntry<F, R, CF>>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> has_key(s, (#[trigger] t[i]).filtration_value, t[i].row_index)
}
/// everything cancels
pub open spec fn vanishes<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>) -> bool {
    forall|x: R| (#[trigger] coef(pairs(s), x)) is None
}
/// `e` is the greatest row with non-zero total, with that total and its filtration value
pub open spec fn is_pivot<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, e: ColumnEntry<F, R, CF>) -> bool {
    &&& coef(pairs(s), e.row_index) == Some(e.coeff)
    &&& has_key(s, e.filtration_value, e.row_index)
    &&& forall|i: int| 0 <= i < s.len() && coef(pairs(s), (#[trigger] s[i]).row_index) is Some ==> s[i].row_index == e.row_index || entry_lt(s[i], e)
}
pub open spec fn below<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, e: ColumnEntry<F, R, CF>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> entry_lt(#[trigger] s[i], e)
}
pub open spec fn decreasing<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> entry_lt(#[trigger] s[j], #[trigger] s[i])
}
/// `e` is stored and strictly above everything else that is stored
pub open spec fn settled<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, e: ColumnEntry<F, R, CF>) -> bool {
    exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == e && forall|i: int| 0 <= i < s.len() && i != k ==> entry_lt(#[trigger] s[i], e)
}

// ------------------------------------------------------------ order lemmas
pub proof fn key_total<F: FiltrationValue, R: BasisElement>(fa: F, ra: R, fb: F, rb: R)
    requires lawful::<F>(), lawful::<R>(),
    ensures
        key_cmp(fa, ra, fb, rb) == Ordering::Equal <==> (fa == fb && ra == rb),
        key_cmp(fa, ra, fb, rb) == rev_ord(key_cmp(fb, rb, fa, ra)),
{ leq_total(fa, fb); leq_total(ra, rb); leq_total(fb, fa); leq_total(rb, ra); }
pub proof fn key_trans<F: FiltrationValue, R: BasisElement>(fa: F, ra: R, fb: F, rb: R, fc: F, rc: R)
    requires lawful::<F>(), lawful::<R>(), key_cmp(fa, ra, fb, rb) != Ordering::Greater, key_cmp(fb, rb, fc, rc) != Ordering::Greater,
    ensures
        key_cmp(fa, ra, fc, rc) != Ordering::Greater,
        key_lt(fa, ra, fb, rb) || key_lt(fb, rb, fc, rc) ==> key_lt(fa, ra, fc, rc),
{
    leq_total(fa, fb); leq_total(fb, fc); leq_total(fa, fc); leq_total(ra, rb); leq_total(rb, rc); leq_total(ra, rc);
    leq_trans(fa, fb, fc);
    if fa == fb && fb == fc { leq_trans(ra, rb, rc); if ra == rc { leq_antisym(ra, rb); } }
    if fa == fc { leq_antisym(fa, fb); }
}

// ------------------------------------------------------------ pairs
pub proof fn pairs_push<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, e: ColumnEntry<F, R, CF>)
    ensures pairs(s.push(e)) == pairs(s).push((e.coeff, e.row_index)),
{ assert(pairs(s.push(e)) =~= pairs(s).push((e.coeff, e.row_index))); }
pub proof fn pairs_append<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, t: Seq<ColumnEntry<F, R, CF>>)
    ensures pairs(s + t) == pairs(s) + pairs(t),
{ assert(pairs(s + t) =~= pairs(s) + pairs(t)); }
pub proof fn pairs_remove<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, i: int)
    requires 0 <= i < s.len(),
    ensures pairs(s.remove(i)) == pairs(s).remove(i),
{ assert(pairs(s.remove(i)) =~= pairs(s).remove(i)); }
pub proof fn fil_by_consistent<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>, f: spec_fn(R) -> F)
    requires fil_by(s, f),
    ensures consistent(s),
{}
pub proof fn within_key_fil_by<F: FiltrationValue, R: BasisElement, CF>(t: Seq<ColumnEntry<F, R, CF>>, s: Seq<ColumnEntry<F, R, CF>>, f: spec_fn(R) -> F)
    requires fil_by(s, f), within_key(t, s),
    ensures fil_by(t, f),
{
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).filtration_value == f(t[i].row_index) by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).row_index == t[i].row_index && s[k].filtration_value == t[i].filtration_value;
        assert(s[k].filtration_value == f(s[k].row_index));
    }
}
pub proof fn within_is_within_key<F: FiltrationValue, R: BasisElement, CF>(t: Seq<ColumnEntry<F, R, CF>>, s: Seq<ColumnEntry<F, R, CF>>)
    requires within(t, s),
    ensures within_key(t, s),
{
    assert forall|i: int| 0 <= i < t.len() implies has_key(s, (#[trigger] t[i]).filtration_value, t[i].row_index) by {
        assert(s.contains(t[i]));
        let k = s.index_of(t[i]);
        assert(s[k].row_index == t[i].row_index);
    }
}
pub proof fn decreasing_distinct<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>)
    requires lawful::<F>(), lawful::<R>(), decreasing(s), consistent(s),
    ensures distinct_rows(pairs(s)),
{
    assert forall|i: int, j: int| 0 <= i < j < pairs(s).len() implies (#[trigger] pairs(s)[i]).1 != (#[trigger] pairs(s)[j]).1 by {
        assert(entry_lt(s[j], s[i]));
        key_total(s[j].filtration_value, s[j].row_index, s[i].filtration_value, s[i].row_index);
    }
}

// ------------------------------------------------------------ pop_pivot
pub open spec fn pop_inv<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, w: R, wf: F, sum: Option<CF>) -> bool {
    &&& forall|x: R| #![trigger coef(pairs(h), x)] x != w ==> coef(pairs(h), x) == coef(pairs(s), x)
    &&& sadd(sum, coef(pairs(h), w)) == coef(pairs(s), w)
    &&& forall|i: int| 0 <= i < h.len() ==> key_cmp((#[trigger] h[i]).filtration_value, h[i].row_index, wf, w) != Ordering::Greater
    &&& within(h, s)
    &&& has_key(s, wf, w)
    &&& h.len() < s.len()
}
pub proof fn within_consistent<F: FiltrationValue, R: BasisElement, CF>(t: Seq<ColumnEntry<F, R, CF>>, s: Seq<ColumnEntry<F, R, CF>>)
    requires within(t, s), consistent(s),
    ensures consistent(t),
{
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).row_index == (#[trigger] t[j]).row_index implies t[i].filtration_value == t[j].filtration_value by {
        assert(s.contains(t[i]) && s.contains(t[j]));
        let a = s.index_of(t[i]); let b = s.index_of(t[j]);
        assert(s[a].row_index == s[b].row_index);
    }
}
pub proof fn lemma_pop<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, i: int)
    requires is_ring::<CF>(), heap_max(s, i),
    ensures pop_inv(s, s.remove(i), s[i].row_index, s[i].filtration_value, Some(s[i].coeff)),
{
    let h = s.remove(i);
    pairs_remove(s, i);
    assert forall|x: R| #![trigger coef(pairs(h), x)] x != s[i].row_index implies coef(pairs(h), x) == coef(pairs(s), x) by { coef_remove(pairs(s), i, x); }
    coef_remove(pairs(s), i, s[i].row_index);
    sadd_comm(coef(pairs(h), s[i].row_index), Some(s[i].coeff));
    assert forall|k: int| 0 <= k < h.len() implies s.contains(#[trigger] h[k]) && entry_cmp(h[k], s[i]) != Ordering::Greater by {
        if k < i { assert(h[k] == s[k]); } else { assert(h[k] == s[k + 1]); }
    }
    assert(s[i].row_index == s[i].row_index);
}
/// what peeking at the maximum tells about the working row
pub proof fn lemma_next<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, i: int, w: R, wf: F, sum: Option<CF>)
    requires is_ring::<CF>(), lawful::<F>(), lawful::<R>(), consistent(s), pop_inv(s, h, w, wf, sum), heap_max(h, i),
    ensures
        h[i].row_index != w ==> !has_row(pairs(h), w) && coef(pairs(h), w) is None && sum == coef(pairs(s), w),
        h[i].row_index != w && sum is None ==> pop_inv(s, h, h[i].row_index, h[i].filtration_value, None),
        h[i].row_index == w ==> h[i].filtration_value == wf,
{
    let n = h[i];
    within_consistent(h, s);
    assert(s.contains(n));
    let ni = s.index_of(n);
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).row_index == w && s[k].filtration_value == wf;
    assert(s[ni].row_index == n.row_index);
    if n.row_index != w {
        if has_row(pairs(h), w) {
            let j = choose|j: int| 0 <= j < pairs(h).len() && (#[trigger] pairs(h)[j]).1 == w;
            assert(h[j].row_index == w);
            assert(s.contains(h[j]));
            let sj = s.index_of(h[j]);
            assert(s[sj].row_index == s[k].row_index);
            // h[j] is (wf, w); it is <= n <= (wf, w)
            assert(entry_cmp(h[j], h[i]) != Ordering::Greater);
            assert(key_cmp(h[i].filtration_value, h[i].row_index, wf, w) != Ordering::Greater);
            key_total(wf, w, n.filtration_value, n.row_index);
            key_total(n.filtration_value, n.row_index, wf, w);
        }
        coef_absent(pairs(h), w);
        if sum is None {
            assert(has_key(s, n.filtration_value, n.row_index));
            assert forall|x: R| #![trigger coef(pairs(h), x)] x != n.row_index implies coef(pairs(h), x) == coef(pairs(s), x) by { }
            assert forall|j: int| 0 <= j < h.len() implies key_cmp((#[trigger] h[j]).filtration_value, h[j].row_index, n.filtration_value, n.row_index) != Ordering::Greater by {
                assert(entry_cmp(h[j], h[i]) != Ordering::Greater);
            }
        }
    } else {
        assert(s[ni].row_index == s[k].row_index);
    }
}
/// taking a maximal entry of the working row
pub proof fn lemma_step<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, i: int, w: R, wf: F, sum: Option<CF>)
    requires is_ring::<CF>(), lawful::<F>(), lawful::<R>(), consistent(s), pop_inv(s, h, w, wf, sum), heap_max(h, i),
        // the maximum sits in the working row
        exists|m: int| #[trigger] heap_max(h, m) && h[m].row_index == w,
    ensures
        h[i].row_index == w,
        pop_inv(s, h.remove(i), w, wf, sadd(Some(h[i].coeff), sum)),
{
    let m = choose|m: int| #[trigger] heap_max(h, m) && h[m].row_index == w;
    within_consistent(h, s);
    assert(entry_cmp(h[m], h[i]) != Ordering::Greater);
    assert(entry_cmp(h[i], h[m]) != Ordering::Greater);
    key_total(h[m].filtration_value, h[m].row_index, h[i].filtration_value, h[i].row_index);
    let h2 = h.remove(i);
    pairs_remove(h, i);
    assert forall|x: R| #![trigger coef(pairs(h2), x)] x != w implies coef(pairs(h2), x) == coef(pairs(s), x) by {
        coef_remove(pairs(h), i, x);
        assert(coef(pairs(h), x) == coef(pairs(s), x));
    }
    coef_remove(pairs(h), i, w);
    let (c, a) = (Some(h[i].coeff), coef(pairs(h2), w));
    // (c + sum) + a == sum + (a + c)
    sadd_comm(c, sum);
    sadd_assoc(sum, c, a);
    sadd_comm(c, a);
    assert forall|k: int| 0 <= k < h2.len() implies s.contains(#[trigger] h2[k]) && key_cmp(h2[k].filtration_value, h2[k].row_index, wf, w) != Ordering::Greater by {
        if k < i { assert(h2[k] == h[k]); } else { assert(h2[k] == h[k + 1]); }
    }
}
pub proof fn lemma_finish<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, w: R, wf: F, sum: Option<CF>)
    requires is_ring::<CF>(), lawful::<F>(), lawful::<R>(), consistent(s), pop_inv(s, h, w, wf, sum),
        !has_row(pairs(h), w), sum is None ==> h.len() == 0,
    ensures
        consistent(h),
        sum is None ==> vanishes(s),
        sum is Some ==> ({
            let e = ColumnEntry { filtration_value: wf, row_index: w, coeff: sum->0 };
            &&& is_pivot(s, e)
            &&& below(h, e)
            &&& forall|x: R| #![trigger coef(pairs(h), x)] coef(pairs(h), x) == (if x == w { None } else { coef(pairs(s), x) })
        }),
{
    within_consistent(h, s);
    coef_absent(pairs(h), w);
    if sum is None {
        assert forall|x: R| (#[trigger] coef(pairs(s), x)) is None by {
            if x != w { assert(!has_row(pairs(h), x)); coef_absent(pairs(h), x); }
        }
    } else {
        let e = ColumnEntry { filtration_value: wf, row_index: w, coeff: sum->0 };
        assert forall|i: int| 0 <= i < h.len() implies entry_lt(#[trigger] h[i], e) by {
            assert(pairs(h)[i].1 != w);
            key_total(h[i].filtration_value, h[i].row_index, wf, w);
        }
        assert forall|i: int| 0 <= i < s.len() && coef(pairs(s), (#[trigger] s[i]).row_index) is Some implies s[i].row_index == w || entry_lt(s[i], e) by {
            let x = s[i].row_index;
            if x != w {
                assert(coef(pairs(h), x) == coef(pairs(s), x));
                coef_some_row(pairs(h), x);
                let j = choose|j: int| 0 <= j < pairs(h).len() && (#[trigger] pairs(h)[j]).1 == x;
                assert(h[j].row_index == x);
                assert(s.contains(h[j]));
                let k = s.index_of(h[j]);
                assert(s[k].row_index == s[i].row_index);
                assert(entry_lt(h[j], e));
            }
        }
    }
}

// ------------------------------------------------------------ drain_sorted
pub open spec fn drain_inv<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, out: Seq<ColumnEntry<F, R, CF>>) -> bool {
    &&& decreasing(out)
    &&& forall|i: int, j: int| 0 <= i < out.len() && 0 <= j < h.len() ==> entry_lt(#[trigger] h[j], #[trigger] out[i])
    &&& forall|x: R| #![trigger coef(pairs(h), x)] #![trigger coef(pairs(out), x)] sadd(coef(pairs(out), x), coef(pairs(h), x)) == coef(pairs(s), x)
    &&& within(h, s)
    &&& consistent(h)
    &&& within_key(out, s)
}
pub proof fn lemma_drain<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, h2: Seq<ColumnEntry<F, R, CF>>, out: Seq<ColumnEntry<F, R, CF>>, e: ColumnEntry<F, R, CF>)
    requires is_ring::<CF>(), lawful::<F>(), lawful::<R>(), consistent(s), drain_inv(s, h, out),
        is_pivot(h, e), below(h2, e), within(h2, h), consistent(h2),
        forall|x: R| #![trigger coef(pairs(h2), x)] coef(pairs(h2), x) == (if x == e.row_index { None } else { coef(pairs(h), x) }),
    ensures drain_inv(s, h2, out.push(e)),
{
    let o2 = out.push(e);
    pairs_push(out, e);
    let k = choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).row_index == e.row_index && h[k].filtration_value == e.filtration_value;
    assert(s.contains(h[k]));
    let sk = s.index_of(h[k]);
    assert(s[sk].row_index == e.row_index);
    assert(has_key(s, e.filtration_value, e.row_index));
    // e is below everything in out, so its row does not occur there
    assert forall|i: int| 0 <= i < out.len() implies entry_lt(e, #[trigger] out[i]) by {
        assert(entry_lt(h[k], out[i]));
    }
    if has_row(pairs(out), e.row_index) {
        let i = choose|i: int| 0 <= i < pairs(out).len() && (#[trigger] pairs(out)[i]).1 == e.row_index;
        assert(out[i].row_index == e.row_index);
        assert(has_key(s, out[i].filtration_value, out[i].row_index));
        let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).row_index == out[i].row_index && s[a].filtration_value == out[i].filtration_value;
        assert(s[a].row_index == s[sk].row_index);
        assert(entry_lt(e, out[i]));
        key_total(e.filtration_value, e.row_index, out[i].filtration_value, out[i].row_index);
        assert(false);
    }
    coef_absent(pairs(out), e.row_index);
    assert forall|x: R| #![trigger coef(pairs(h2), x)] #![trigger coef(pairs(o2), x)] sadd(coef(pairs(o2), x), coef(pairs(h2), x)) == coef(pairs(s), x) by {
        coef_push(pairs(out), (e.coeff, e.row_index), x);
        assert(sadd(coef(pairs(out), x), coef(pairs(h), x)) == coef(pairs(s), x));
        assert(coef(pairs(h2), x) == (if x == e.row_index { None } else { coef(pairs(h), x) }));
    }
    assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < h2.len() implies entry_lt(#[trigger] h2[j], #[trigger] o2[i]) by {
        assert(entry_lt(h2[j], e));
        if i < out.len() { assert(o2[i] == out[i]); assert(entry_lt(e, out[i])); key_trans(h2[j].filtration_value, h2[j].row_index, e.filtration_value, e.row_index, out[i].filtration_value, out[i].row_index); }
    }
    assert forall|i: int| 0 <= i < h2.len() implies s.contains(#[trigger] h2[i]) by {
        assert(h.contains(h2[i]));
        let a = h.index_of(h2[i]);
        assert(s.contains(h[a]));
    }
    assert forall|i: int| 0 <= i < o2.len() implies has_key(s, (#[trigger] o2[i]).filtration_value, o2[i].row_index) by {
        if i < out.len() { assert(o2[i] == out[i]); }
    }
}
pub proof fn lemma_drained<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, out: Seq<ColumnEntry<F, R, CF>>)
    requires is_ring::<CF>(), drain_inv(s, h, out), h.len() == 0,
    ensures eqv(pairs(out), pairs(s)),
{
    assert forall|x: R| #[trigger] coef(pairs(out), x) == coef(pairs(s), x) by {
        assert(sadd(coef(pairs(out), x), coef(pairs(h), x)) == coef(pairs(s), x));
    }
}
pub proof fn lemma_clone_pivot<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, h: Seq<ColumnEntry<F, R, CF>>, e: ColumnEntry<F, R, CF>)
    requires is_ring::<CF>(), lawful::<F>(), lawful::<R>(), consistent(s),
        is_pivot(s, e), below(h, e), within(h, s), consistent(h),
        forall|x: R| #![trigger coef(pairs(h), x)] coef(pairs(h), x) == (if x == e.row_index { None } else { coef(pairs(s), x) }),
    ensures
        settled(h.push(e), e),
        eqv(pairs(h.push(e)), pairs(s)),
        within_key(h.push(e), s),
        consistent(h.push(e)),
{
    let h2 = h.push(e);
    pairs_push(h, e);
    assert(h2[h.len() as int] == e);
    assert forall|i: int| 0 <= i < h2.len() && i != h.len() implies entry_lt(#[trigger] h2[i], e) by { assert(h2[i] == h[i]); }
    assert forall|x: R| #[trigger] coef(pairs(h2), x) == coef(pairs(s), x) by {
        coef_push(pairs(h), (e.coeff, e.row_index), x);
        assert(coef(pairs(h), x) == (if x == e.row_index { None } else { coef(pairs(s), x) }));
    }
    within_is_within_key(h, s);
    assert forall|i: int| 0 <= i < h2.len() implies has_key(s, (#[trigger] h2[i]).filtration_value, h2[i].row_index) by {
        if i < h.len() { assert(h2[i] == h[i]); }
    }
    within_key_consistent(h2, s);
}
pub proof fn within_key_consistent<F: FiltrationValue, R: BasisElement, CF>(t: Seq<ColumnEntry<F, R, CF>>, s: Seq<ColumnEntry<F, R, CF>>)
    requires within_key(t, s), consistent(s),
    ensures consistent(t),
{
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).row_index == (#[trigger] t[j]).row_index implies t[i].filtration_value == t[j].filtration_value by {
        assert(has_key(s, t[i].filtration_value, t[i].row_index) && has_key(s, t[j].filtration_value, t[j].row_index));
        let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).row_index == t[i].row_index && s[a].filtration_value == t[i].filtration_value;
        let b = choose|b: int| 0 <= b < s.len() && (#[trigger] s[b]).row_index == t[j].row_index && s[b].filtration_value == t[j].filtration_value;
        assert(s[a].row_index == s[b].row_index);
    }
}
pub proof fn lemma_settled<F: FiltrationValue, R: BasisElement, CF>(s: Seq<ColumnEntry<F, R, CF>>)
    requires lawful::<F>(), lawful::<R>(),
    ensures forall|e: ColumnEntry<F, R, CF>, i: int| #[trigger] settled(s, e) && #[trigger] heap_max(s, i) ==> s[i] == e,
{
    assert forall|e: ColumnEntry<F, R, CF>, i: int| #[trigger] settled(s, e) && #[trigger] heap_max(s, i) implies s[i] == e by {
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == e && forall|i: int| 0 <= i < s.len() && i != k ==> entry_lt(#[trigger] s[i], e);
        if i != k {
            assert(entry_lt(s[i], e));
            assert(entry_cmp(s[k], s[i]) != Ordering::Greater);
            key_total(s[k].filtration_value, s[k].row_index, s[i].filtration_value, s[i].row_index);
        }
    }
}
/// descending columns with the same row sums are the same column
pub proof fn canonical<F: FiltrationValue, R: BasisElement, CF: NonZeroCoefficient>(s: Seq<ColumnEntry<F, R, CF>>, t: Seq<ColumnEntry<F, R, CF>>, f: spec_fn(R) -> F)
    requires is_ring::<CF>(), lawful::<F>(), lawful::<R>(), decreasing(s), decreasing(t), fil_by(s, f), fil_by(t, f), eqv(pairs(s), pairs(t)),
    ensures s == t,
    decreases s.len(),
{
    fil_by_consistent(s, f); fil_by_consistent(t, f);
    decreasing_distinct(s); decreasing_distinct(t);
    if s.len() == 0 {
        if t.len() > 0 { coef_distinct(pairs(t), 0); coef_absent(pairs(s), t[0].row_index); assert(coef(pairs(s), t[0].row_index) == coef(pairs(t), t[0].row_index)); }
        assert(s =~= t);
    } else {
        coef_distinct(pairs(s), 0);
        let r = s[0].row_index;
        assert(coef(pairs(t), r) == coef(pairs(s), r));
        coef_some_row(pairs(t), r);
        let k = choose|k: int| 0 <= k < pairs(t).len() && (#[trigger] pairs(t)[k]).1 == r;
        assert(t[k].row_index == r);
        coef_distinct(pairs(t), k);
        coef_distinct(pairs(t), 0);
        let q = t[0].row_index;
        assert(coef(pairs(s), q) == coef(pairs(t), q));
        coef_some_row(pairs(s), q);
        let j = choose|j: int| 0 <= j < pairs(s).len() && (#[trigger] pairs(s)[j]).1 == q;
        assert(s[j].row_index == q);
        if k > 0 {
            assert(entry_lt(t[k], t[0]));
            key_total(t[k].filtration_value, t[k].row_index, t[0].filtration_value, t[0].row_index);
            if j > 0 {
                assert(entry_lt(s[j], s[0]));
                key_total(s[j].filtration_value, s[j].row_index, s[0].filtration_value, s[0].row_index);
            }
            assert(false);
        }
        assert(s[0] == t[0]);
        let s1 = s.remove(0); let t1 = t.remove(0);
        pairs_remove(s, 0); pairs_remove(t, 0);
        assert forall|x: R| #[trigger] coef(pairs(s1), x) == coef(pairs(t1), x) by {
            coef_remove(pairs(s), 0, x); coef_remove(pairs(t), 0, x);
            assert(coef(pairs(s), x) == coef(pairs(t), x));
            if x == r {
                if has_row(pairs(s1), r) { let a = choose|a: int| 0 <= a < pairs(s1).len() && (#[trigger] pairs(s1)[a]).1 == r; assert(pairs(s)[a + 1].1 == r); assert(pairs(s)[0].1 == r); }
                if has_row(pairs(t1), r) { let a = choose|a: int| 0 <= a < pairs(t1).len() && (#[trigger] pairs(t1)[a]).1 == r; assert(pairs(t)[a + 1].1 == r); assert(pairs(t)[0].1 == r); }
                coef_absent(pairs(s1), r); coef_absent(pairs(t1), r);
            }
        }
        assert(decreasing(s1)) by { assert forall|a: int, b: int| 0 <= a < b < s1.len() implies entry_lt(#[trigger] s1[b], #[trigger] s1[a]) by { assert(s1[a] == s[a + 1] && s1[b] == s[b + 1]); } }
        assert(decreasing(t1)) by { assert forall|a: int, b: int| 0 <= a < b < t1.len() implies entry_lt(#[trigger] t1[b], #[trigger] t1[a]) by { assert(t1[a] == t[a + 1] && t1[b] == t[b + 1]); } }
        canonical(s1, t1, f);
        assert(s =~= seq![s[0]] + s1);
        assert(t =~= seq![t[0]] + t1);
    }
}
