//! Model of `std::collections::BinaryHeap`: a bag from which a maximal element is taken.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { v: Vec<T> }

/// `i` is the position of an element no other element compares greater than
pub open spec fn heap_max<T: Ord>(s: Seq<T>, i: int) -> bool {
    0 <= i < s.len() && forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).cmp_spec(&s[i]) != Ordering::Greater
}

impl<T> BinaryHeap<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
}
impl<T: Ord> BinaryHeap<T> {
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.seq() == Seq::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T)
        ensures final(self).seq() == old(self).seq().push(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self).seq() == old(self).seq(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        requires T::obeys_cmp_spec(),
        ensures
            r is None <==> old(self).seq().len() == 0,
            r is None ==> final(self).seq() == old(self).seq(),
            r is Some ==> exists|i: int| #[trigger] heap_max(old(self).seq(), i) && r->0 == old(self).seq()[i] && final(self).seq() == old(self).seq().remove(i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        requires T::obeys_cmp_spec(),
        ensures
            r is None <==> self.seq().len() == 0,
            r is Some ==> exists|i: int| #[trigger] heap_max(self.seq(), i) && *(r->0) == self.seq()[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.seq().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.seq().len() == 0),
    { unimplemented!() }
}

} // verus!
