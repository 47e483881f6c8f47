//! Models of std / dependency containers: reversed order, floats, copy-on-write, hash maps and
//! sets, shared mutable cells, reference handles.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::iters::*;
verus! {

// ---------------------------------------------------------------- Reverse

/// Model of `core::cmp::Reverse`: same values, opposite order.
pub struct Reverse<T>(pub T);
impl<T: PartialEq> PartialEqSpecImpl for Reverse<T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.0.eq_spec(&o.0) }
}
impl<T: PartialEq> PartialEq for Reverse<T> {
    fn eq(&self, o: &Self) -> bool { self.0.eq(&o.0) }
}
impl<T: Eq> Eq for Reverse<T> {}
impl<T: PartialOrd> PartialOrdSpecImpl for Reverse<T> {
    open spec fn obeys_partial_cmp_spec() -> bool { T::obeys_partial_cmp_spec() }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { o.0.partial_cmp_spec(&self.0) }
}
impl<T: PartialOrd> PartialOrd for Reverse<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { o.0.partial_cmp(&self.0) }
}
impl<T: Ord> OrdSpecImpl for Reverse<T> {
    open spec fn obeys_cmp_spec() -> bool { T::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { o.0.cmp_spec(&self.0) }
}
impl<T: Ord> Ord for Reverse<T> {
    fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) }
}
impl<T: Clone> Clone for Reverse<T> {
    fn clone(&self) -> (r: Self)
        ensures call_ensures(T::clone, (&self.0,), r.0),
    { Reverse(self.0.clone()) }
}
impl<T: Copy> Copy for Reverse<T> {}
pub proof fn reverse_lawful<T: Ord + Clone>()
    requires lawful::<T>(),
    ensures lawful::<Reverse<T>>(),
{
    reveal(lawful);
    assert forall|a: Reverse<T>, b: Reverse<T>| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == Ordering::Equal <==> a == b by { assert(b.0.cmp_spec(&a.0) == Ordering::Equal <==> b.0 == a.0); }
    assert forall|a: Reverse<T>, b: Reverse<T>| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == rev_ord(OrdSpec::cmp_spec(&b, &a)) by { assert(a.0.cmp_spec(&b.0) == rev_ord(b.0.cmp_spec(&a.0))); }
    assert forall|a: Reverse<T>, b: Reverse<T>, c: Reverse<T>| (#[trigger] leq(a, b)) && (#[trigger] leq(b, c)) implies leq(a, c) by { assert(leq(b.0, a.0) && leq(c.0, b.0)); }
    assert forall|a: Reverse<T>, b: Reverse<T>| (#[trigger] PartialEqSpec::eq_spec(&a, &b)) <==> a == b by { assert(a.0.eq_spec(&b.0) <==> a.0 == b.0); }
    assert forall|a: &Reverse<T>, b: Reverse<T>| #[trigger] call_ensures(Reverse::<T>::clone, (a,), b) implies *a == b by {
        assert(call_ensures(T::clone, (&a.0,), b.0));
    }
}

// ---------------------------------------------------------------- ordered floats

/// Model of `ordered_float::NotNan`: an abstract totally ordered type.
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct NotNan<F> { f: F }
impl<F> PartialEq for NotNan<F> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<F> Eq for NotNan<F> {}
impl<F> PartialOrd for NotNan<F> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl<F> Ord for NotNan<F> { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
impl<F> Clone for NotNan<F> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<F: Copy> Copy for NotNan<F> {}
/// the ordered float of a float that is not NaN
pub uninterp spec fn nn(x: f64) -> NotNan<f64>;
pub uninterp spec fn f64_nan(x: f64) -> bool;
impl NotNan<f64> {
    #[verifier::external_body]
    pub fn new(x: f64) -> (r: Option<Self>)
        ensures r == (if f64_nan(x) { None } else { Some(nn(x)) }), !f64_nan(crate::prelude::f64_zero()), !f64_nan(crate::prelude::f64_inf()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_unchecked(x: f64) -> (r: Self)
        requires !f64_nan(x) || x == crate::prelude::f64_zero() || x == crate::prelude::f64_inf(),
        ensures r == nn(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: f64)
        ensures nn(r) == self, !f64_nan(r),
    { unimplemented!() }
}
/// the operators of `NotNan` agree with its order
pub axiom fn axiom_notnan_partial()
    ensures
        <NotNan<f64> as PartialOrdSpec>::obeys_partial_cmp_spec(),
        forall|a: NotNan<f64>, b: NotNan<f64>| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(OrdSpec::cmp_spec(&a, &b));
pub trait IsNotNan: Ord + Clone {}
impl<F> IsNotNan for NotNan<F> {}
pub axiom fn axiom_notnan_lawful<T: IsNotNan>()
    ensures lawful::<T>();
/// `()` used as data: Verus has no `Clone` for `()`, so the extractor renames it to this type.
pub struct Unit;
impl PartialEqSpecImpl for Unit {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { true }
}
impl PartialEq for Unit { fn eq(&self, o: &Self) -> bool { true } }
impl Eq for Unit {}
impl PartialOrdSpecImpl for Unit {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(Ordering::Equal) }
}
impl PartialOrd for Unit { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(Ordering::Equal) } }
impl OrdSpecImpl for Unit {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { Ordering::Equal }
}
impl Ord for Unit { fn cmp(&self, o: &Self) -> Ordering { Ordering::Equal } }
impl Clone for Unit { fn clone(&self) -> (r: Self) ensures r == *self, { Unit } }
pub proof fn unit_lawful()
    ensures lawful::<Unit>(),
{
    reveal(lawful);
    assert forall|a: Unit, b: Unit| #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> a == b by { assert(a == b); }
    assert forall|a: Unit, b: Unit| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == Ordering::Equal <==> a == b by { assert(a == b); }
}

// ---------------------------------------------------------------- Cow

pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> {
    pub open spec fn cv(&self) -> T { match self { Cow::Borrowed(x) => **x, Cow::Owned(x) => *x } }
    pub fn vp_deref(&self) -> (r: &T)
        ensures *r == self.cv(),
    { match self { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } }
}

// ---------------------------------------------------------------- vectors

pub trait VpVecGet<T> {
    spec fn got(&self) -> Seq<T>;
    fn vp_get(&self, i: usize) -> (r: Option<&T>)
        ensures
            r is Some <==> i < self.got().len(),
            r is Some ==> *(r->0) == self.got()[i as int];
}
impl<T> VpVecGet<T> for Vec<T> {
    open spec fn got(&self) -> Seq<T> { self@ }
    fn vp_get(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
}

/// `sort_unstable` on pairs: a permutation in lexicographic order
pub trait VpSort<A: Ord, B: Ord> {
    spec fn pv(&self) -> Seq<(A, B)>;
    fn vp_sort_unstable(&mut self)
        requires A::obeys_cmp_spec(), B::obeys_cmp_spec(),
        ensures sorted2(final(self).pv()), final(self).pv().to_multiset() == old(self).pv().to_multiset();
}
pub open spec fn leq2<A: Ord, B: Ord>(x: (A, B), y: (A, B)) -> bool { lt(x.0, y.0) || (x.0.cmp_spec(&y.0) == Ordering::Equal && leq(x.1, y.1)) }
pub open spec fn sorted2<A: Ord, B: Ord>(s: Seq<(A, B)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> leq2(#[trigger] s[i], #[trigger] s[j]) }
pub proof fn leq2_order<A: Ord + Clone, B: Ord + Clone>(x: (A, B), y: (A, B), z: (A, B))
    requires lawful::<A>(), lawful::<B>(),
    ensures leq2(x, x), leq2(x, y) || leq2(y, x), leq2(x, y) && leq2(y, z) ==> leq2(x, z), leq2(x, y) && leq2(y, x) ==> x == y,
        leq2(x, y) <==> (match x.0.cmp_spec(&y.0) { Ordering::Equal => x.1.cmp_spec(&y.1), o => o }) != Ordering::Greater,
{
    leq_refl(x.0); leq_refl(x.1); leq_total(x.0, x.0);
    leq_total(x.0, y.0); leq_total(x.1, y.1); leq_total(y.0, x.0); leq_total(y.1, x.1);
    leq_total(y.0, z.0); leq_total(y.1, z.1); leq_total(x.0, z.0); leq_total(x.1, z.1);
    if leq2(x, y) && leq2(y, z) {
        if lt(x.0, y.0) { lt_trans(x.0, y.0, z.0); }
        else if lt(y.0, z.0) { lt_trans(x.0, y.0, z.0); }
        else { leq_trans(x.1, y.1, z.1); }
    }
}
pub open spec fn is_min2<A: Ord, B: Ord>(s: Seq<(A, B)>, m: (A, B)) -> bool {
    s.contains(m) && forall|i: int| 0 <= i < s.len() ==> leq2(m, #[trigger] s[i])
}
impl<A: Ord + Clone, B: Ord + Clone> It<(A, B)> {
    /// `Iterator::min` on pairs: lexicographic
    pub fn vp_min(self) -> (r: Option<(A, B)>)
        requires lawful::<A>(), lawful::<B>(),
        ensures r is None <==> self@.len() == 0, r is Some ==> is_min2(self@, r->0),
    {
        let ghost s = self@;
        let mut best: Option<(A, B)> = None;
        proof { lawful_cmp::<A>(); lawful_cmp::<B>(); }
        for x in it: self.v
            invariant
                it.seq() == s, lawful::<A>(), lawful::<B>(), A::obeys_cmp_spec(), B::obeys_cmp_spec(),
                best is None <==> it.index@ == 0,
                best is Some ==> is_min2(s.take(it.index@), best->0),
        {
            let ghost k = it.index@;
            proof { assert(s.take(k + 1) =~= s.take(k).push(x)); leq2_order(x, x, x); assert(s.take(k + 1)[k] == x); }
            best = match best {
                None => { proof { assert(is_min2(s.take(k + 1), x)); } Some(x) }
                Some(b) => {
                    let ghost t = s.take(k);
                    proof {
                        leq2_order(b, x, x);
                        assert forall|i: int| 0 <= i < k && leq2(x, b) implies leq2(x, #[trigger] t[i]) by { leq2_order(x, b, t[i]); }
                        let j = t.index_of(b);
                        assert(s.take(k + 1)[j] == b);
                        assert forall|i: int| 0 <= i < k implies s.take(k + 1)[i] == #[trigger] t[i] by {}
                    }
                    match vp_lex_cmp2(&b.0, &b.1, &x.0, &x.1) {
                        Ordering::Greater => { proof { leq2_order(x, b, b); assert(is_min2(s.take(k + 1), x)); } Some(x) }
                        _ => { proof { assert(is_min2(s.take(k + 1), b)); } Some(b) }
                    }
                }
            };
        }
        proof { assert(s.take(s.len() as int) =~= s); }
        best
    }
}
impl<A: Ord, B: Ord> VpSort<A, B> for Vec<(A, B)> {
    open spec fn pv(&self) -> Seq<(A, B)> { self@ }
    #[verifier::external_body]
    fn vp_sort_unstable(&mut self) { unimplemented!() }
}

pub trait VpVecLast<T> {
    spec fn lv(&self) -> Seq<T>;
    fn vp_last(&self) -> (r: Option<&T>)
        ensures self.lv().len() == 0 ==> r is None, self.lv().len() > 0 ==> r is Some && *(r->0) == self.lv().last();
}
impl<T> VpVecLast<T> for Vec<T> {
    open spec fn lv(&self) -> Seq<T> { self@ }
    fn vp_last(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
}

pub trait VpSplit<T> {
    spec fn sv(&self) -> Seq<T>;
    fn vp_split_at(&self, i: usize) -> (r: (&[T], &[T]))
        requires i <= self.sv().len(),
        ensures r.0@ == self.sv().take(i as int), r.1@ == self.sv().skip(i as int);
}
impl<T> VpSplit<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_split_at(&self, i: usize) -> (r: (&[T], &[T])) { self.split_at(i) }
}
impl<T> VpIter<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn vp_iter(&self) -> (r: It<&T>) {
        let mut out: Vec<&T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == self@[j],
            decreases self@.len() - i,
        { out.push(&self[i]); i += 1; }
        It { v: out }
    }
}

// ---------------------------------------------------------------- hash maps and sets

/// Model of `HashMap` / `FxHashMap`: a finite map. Keys are compared by value (assumption:
/// `Eq` and `Hash` of the key agree with the lawful equality).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
pub type FxHashMap<K, V> = HashMap<K, V>;
impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> Default for HashMap<K, V> {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
    /// (a field of the same name elsewhere is a Cow)
    pub fn vp_deref(&self) -> (r: &Self)
        ensures *r == *self,
    { self }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_get(&self, k: &K) -> (r: Option<&V>)
        ensures
            r is Some <==> self@.dom().contains(*k),
            r is Some ==> *(r->0) == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r is Some <==> old(self)@.dom().contains(k),
            r is Some ==> r->0 == old(self)@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r is Some <==> old(self)@.dom().contains(*k),
            r is Some ==> r->0 == old(self)@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
}
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len(),
{ if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) } }
impl<K, V> VpCollect<(K, V)> for HashMap<K, V> {
    open spec fn collected(self, s: Seq<(K, V)>) -> bool { self@ == map_of(s) }
    fn from_items(i: It<(K, V)>) -> (r: Self) {
        let mut out: HashMap<K, V> = HashMap::new();
        let ghost s = i@;
        for x in it: i.v
            invariant it.seq() == s, out@ == map_of(s.take(it.index@)),
        {
            proof { assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@)); }
            out.insert(x.0, x.1);
        }
        proof { assert(s.take(s.len() as int) =~= s); }
        out
    }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: Vec<K> }
pub type FxHashSet<K> = HashSet<K>;
impl<K> View for HashSet<K> {
    type V = Set<K>;
    uninterp spec fn view(&self) -> Set<K>;
}
impl<K> Default for HashSet<K> {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r@ == Set::<K>::empty(),
    { unimplemented!() }
}
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<K>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool)
        ensures r == self@.contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k),
    { unimplemented!() }
}
/// the order in which a set is iterated
pub uninterp spec fn set_order<K>(s: HashSet<K>) -> Seq<K>;
pub axiom fn axiom_set_order<K>(s: HashSet<K>)
    ensures set_order(s).no_duplicates(), forall|k: K| #[trigger] set_order(s).contains(k) <==> s@.contains(k);
impl<K> VpIter<K> for HashSet<K> {
    open spec fn elems(&self) -> Seq<K> { set_order(*self) }
    #[verifier::external_body]
    fn vp_iter(&self) -> (r: It<&K>) { unimplemented!() }
}
impl<K> VIter<K> for HashSet<K> {
    open spec fn items(self) -> Seq<K> { set_order(self) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<K>) { unimplemented!() }
}
impl<K> VpCollect<K> for HashSet<K> {
    open spec fn collected(self, s: Seq<K>) -> bool { self@ == s.to_set() }
    fn from_items(i: It<K>) -> (r: Self) {
        let mut out: HashSet<K> = HashSet::new();
        let ghost s = i@;
        for x in it: i.v
            invariant it.seq() == s, out@ == s.take(it.index@).to_set(),
        {
            proof {
                let k = it.index@;
                assert(s.take(k + 1) =~= s.take(k).push(x));
                assert(s.take(k + 1).to_set() =~= s.take(k).to_set().insert(x)) by {
                    assert forall|y: K| s.take(k + 1).to_set().contains(y) <==> s.take(k).to_set().insert(x).contains(y) by {
                        if s.take(k).contains(y) { let j = s.take(k).index_of(y); assert(s.take(k + 1)[j] == y); }
                        if y == x { assert(s.take(k + 1)[k] == x); }
                    }
                }
            }
            out.insert(x);
        }
        proof { assert(s.take(s.len() as int) =~= s); assert(s.take(0).to_set() =~= Set::empty()); }
        out
    }
}

// ---------------------------------------------------------------- grow-only cell

/// Model of `RefCell<HashMap<..>>` as the library uses it: the content always satisfies the
/// predicate fixed at construction and keys are never removed. Whether a borrow is refused at run
/// time is outside the model.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { t: T }
/// A moment in the execution; obtained only from the operations below.
#[verifier::external_body]
pub struct CellTime { }
impl CellTime {
    pub uninterp spec fn has<K, V>(self, c: RefCell<HashMap<K, V>>, k: K) -> bool;
    #[verifier::external_body]
    pub fn now() -> (r: CellTime) { unimplemented!() }
}
impl<T> RefCell<T> {
    pub uninterp spec fn pred(&self) -> spec_fn(T) -> bool;
    #[verifier::external_body]
    pub fn vp_new(t: T, p: Ghost<spec_fn(T) -> bool>) -> (r: Self)
        requires p@(t),
        ensures r.pred() == p@,
    { unimplemented!() }
}
impl<K, V> RefCell<HashMap<K, V>> {
    #[verifier::external_body]
    pub fn vp_borrow(&self, now: &mut CellTime) -> (r: &HashMap<K, V>)
        ensures self.pred()(*r),
            forall|k: K| #[trigger] old(now).has(*self, k) ==> r@.dom().contains(k),
            forall|k: K| #[trigger] r@.dom().contains(k) ==> final(now).has(*self, k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_insert(&self, now: &mut CellTime, k: K, v: V)
        requires forall|m: HashMap<K, V>, n: HashMap<K, V>| self.pred()(m) && n@ == m@.insert(k, v) ==> #[trigger] self.pred()(n) || !(#[trigger] self.pred()(m)),
        ensures final(now).has(*self, k),
            forall|j: K| #[trigger] old(now).has(*self, j) ==> final(now).has(*self, j),
    { unimplemented!() }
}

// ---------------------------------------------------------------- handles

/// How a basis handle (a reference, a cheap value or a wrapped reference) becomes the reference
/// the contracts speak about. Owned handles are kept alive forever by the model.
pub trait VpHandle<'a, B>: Sized {
    spec fn hok(self) -> bool;
    spec fn hv(self) -> B;
    fn vp_handle(self) -> (r: &'a B)
        requires self.hok(),
        ensures *r == self.hv();
}
impl<'a, B> VpHandle<'a, B> for &'a B {
    open spec fn hok(self) -> bool { true }
    open spec fn hv(self) -> B { *self }
    fn vp_handle(self) -> (r: &'a B) { self }
}
/// A `repr(transparent)` wrapper `B` of `Self` (the extractor insists on the attribute).
pub trait VpCast<B>: Sized {
    spec fn wrapped(self) -> B;
}
/// a reference to the wrapped value as a reference to the wrapper (pointer cast)
#[verifier::external_body]
pub fn vp_cast_ref<'a, A: VpCast<B>, B>(a: &'a A) -> (r: &'a B)
    ensures *r == VpCast::<B>::wrapped(*a),
{ unimplemented!() }

} // verus!
verus! {
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
} // verus!
