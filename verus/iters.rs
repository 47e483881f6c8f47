//! Eager model of the iterators used by the library: an iterator is the sequence of the
//! items it yields.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::lawful::*;
use crate::fields::NonZeroCoefficient;
verus! {

pub struct It<T> { pub v: Vec<T> }
impl<T> View for It<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}

/// what `IntoIterator` / `Iterator` bounds become
pub trait VIter<T>: Sized {
    spec fn items(self) -> Seq<T>;
    fn vp_into_iter(self) -> (r: It<T>)
        ensures r@ == self.items();
}
impl<T> VIter<T> for It<T> {
    open spec fn items(self) -> Seq<T> { self.v@ }
    fn vp_into_iter(self) -> (r: It<T>) { proof { assert(self.items() == self.v@); } self }
}
/// what `Iterator` bounds become
pub trait VNext<T>: VIter<T> {
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() == old(self).items().drop_first();
}
impl<T> VNext<T> for It<T> {
    fn next(&mut self) -> (r: Option<T>) {
        if self.v.len() == 0 { None } else {
            let x = self.v.remove(0);
            proof { assert(self.v@ =~= old(self).v@.drop_first()); }
            Some(x)
        }
    }
}
impl<T> VIter<T> for Vec<T> {
    open spec fn items(self) -> Seq<T> { self@ }
    fn vp_into_iter(self) -> (r: It<T>) { proof { assert(self.items() == self@); } It { v: self } }
}
impl<T> VIter<T> for Option<T> {
    open spec fn items(self) -> Seq<T> { match self { Some(x) => seq![x], None => seq![] } }
    fn vp_into_iter(self) -> (r: It<T>) {
        match self { Some(x) => { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } It { v } }, None => { let v = Vec::new(); proof { assert(v@ =~= seq![]); } It { v } } }
    }
}
pub fn vp_into_vec<T, I: VIter<T>>(i: I) -> (r: Vec<T>)
    ensures r@ == i.items(),
{ i.vp_into_iter().v }

/// Values of `T` are indistinguishable from their clones.
pub uninterp spec fn clone_is_id<T>() -> bool;
pub axiom fn axiom_clone_coef<C: NonZeroCoefficient>()
    ensures clone_is_id::<C>();
pub axiom fn axiom_clone_lawful<T: Ord + Clone>()
    requires lawful::<T>(),
    ensures clone_is_id::<T>();
pub axiom fn axiom_clone_pair<A, B>()
    requires clone_is_id::<A>(), clone_is_id::<B>(),
    ensures clone_is_id::<(A, B)>();
pub axiom fn axiom_clone_vec<A>()
    requires clone_is_id::<A>(),
    ensures clone_is_id::<Vec<A>>();
pub axiom fn axiom_clone_use<A: Clone>()
    requires clone_is_id::<A>(),
    ensures forall|a: &A, b: A| #[trigger] call_ensures(A::clone, (a,), b) ==> *a == b;

impl<'a, T: Clone> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), clone_is_id::<T>() ==> forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i],
    { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    pub fn copied(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i],
    {
        let mut out: Vec<T> = Vec::new();
        let ghost s = self@;
        for x in it: self.v
            invariant it.seq() == s, out@.len() == it.index@, forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == *s[i],
        { out.push(*x); }
        It { v: out }
    }
}

pub trait VpIter<T> {
    spec fn elems(&self) -> Seq<T>;
    fn vp_iter(&self) -> (r: It<&T>)
        ensures r@.len() == self.elems().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.elems()[i];
}
impl<T> VpIter<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn vp_iter(&self) -> (r: It<&T>) {
        let mut out: Vec<&T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == self@[j],
            decreases self@.len() - i,
        { out.push(&self[i]); i += 1; }
        It { v: out }
    }
}

impl<T> It<T> {
    pub fn once(x: T) -> (r: It<T>)
        ensures r@ =~= seq![x],
    { let mut v = Vec::new(); v.push(x); It { v } }
    pub fn empty() -> (r: It<T>)
        ensures r@ =~= Seq::<T>::empty(),
    { It { v: Vec::new() } }
    /// a lower bound on the number of items
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 <= self@.len(),
    { unimplemented!() }
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i]),
    {
        let mut out: Vec<B> = Vec::new();
        let ghost s = self@;
        for x in it: self.v
            invariant
                it.seq() == s,
                forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                out@.len() == it.index@, forall|i: int| 0 <= i < out@.len() ==> f.ensures((s[i],), #[trigger] out@[i]),
        { out.push(f(x)); }
        It { v: out }
    }
    pub fn chain<I: VIter<T>>(self, o: I) -> (r: It<T>)
        ensures r@ == self@ + o.items(),
    {
        let mut a = self.v;
        let mut b = o.vp_into_iter().v;
        a.append(&mut b);
        It { v: a }
    }
    /// `flat_map` whose closure yields an iterator
    pub fn flat_map<B, F: Fn(T) -> It<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|parts: Seq<Seq<B>>| #[trigger] flat_parts(self@, f, parts) && r@ == flat(parts),
    {
        let mut out: Vec<B> = Vec::new();
        let ghost s = self@;
        let ghost mut parts: Seq<Seq<B>> = Seq::empty();
        for x in it: self.v
            invariant
                it.seq() == s,
                forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                parts.len() == it.index@, out@ == flat(parts),
                forall|i: int| 0 <= i < parts.len() ==> part_of(f, s[i], #[trigger] parts[i]),
        {
            let mut y = f(x);
            proof { let p = y@; assert(part_of(f, x, p)); assert(parts.push(p).drop_last() =~= parts); parts = parts.push(p); }
            out.append(&mut y.v);
        }
        proof { assert(flat_parts(s, f, parts)); }
        It { v: out }
    }
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures exists|keep: Seq<bool>| #[trigger] filter_keep(self@, f, keep) && r@ == select(self@, keep),
    {
        let mut out: Vec<T> = Vec::new();
        let ghost s = self@;
        let ghost mut keep: Seq<bool> = Seq::empty();
        for x in it: self.v
            invariant
                it.seq() == s,
                forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)),
                keep.len() == it.index@, out@ == select(s.take(it.index@), keep),
                forall|i: int| 0 <= i < keep.len() ==> f.ensures((&s[i],), #[trigger] keep[i]),
        {
            let b = f(&x);
            proof {
                let k = it.index@;
                assert(s.take(k + 1).drop_last() =~= s.take(k));
                assert(keep.push(b).drop_last() =~= keep);
                keep = keep.push(b);
            }
            if b { out.push(x); }
        }
        proof { assert(s.take(s.len() as int) =~= s); assert(filter_keep(s, f, keep)); }
        It { v: out }
    }
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|res: Seq<Option<B>>| #[trigger] fm_res(self@, f, res) && r@ == somes(res),
    {
        let mut out: Vec<B> = Vec::new();
        let ghost s = self@;
        let ghost mut res: Seq<Option<B>> = Seq::empty();
        for x in it: self.v
            invariant
                it.seq() == s,
                forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                res.len() == it.index@, out@ == somes(res),
                forall|i: int| 0 <= i < res.len() ==> f.ensures((s[i],), #[trigger] res[i]),
        {
            let y = f(x);
            proof { assert(res.push(y).drop_last() =~= res); res = res.push(y); }
            match y { Some(z) => { out.push(z); } None => {} }
        }
        proof { assert(fm_res(s, f, res)); }
        It { v: out }
    }
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    {
        let mut out: Vec<(usize, T)> = Vec::new();
        let ghost s = self@;
        let mut k: usize = 0;
        proof { assert(self.v@.len() == self.v.len()); assert(s.len() <= usize::MAX); }
        for x in it: self.v
            invariant
                it.seq() == s, s.len() <= usize::MAX,
                k == it.index@,
                out@.len() == it.index@, forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == (i as usize, s[i]),
        {
            out.push((k, x));
            if k < usize::MAX { k = k + 1; }
        }
        It { v: out }
    }
    pub fn rev(self) -> (r: It<T>)
        ensures r@ =~= self@.reverse(),
    {
        let mut v = self.v;
        let ghost s = v@;
        let mut out: Vec<T> = Vec::new();
        loop
            invariant out@ + v@.reverse() =~= s.reverse(),
            ensures v@.len() == 0, out@ + v@.reverse() =~= s.reverse(),
            decreases v@.len(),
        {
            let ghost before = v@;
            match v.pop() {
                Some(x) => { proof { assert(before.reverse() =~= seq![x] + v@.reverse()); } out.push(x); }
                None => { break; }
            }
        }
        It { v: out }
    }
    pub fn collect<D: VpCollect<T>>(self) -> (r: D)
        ensures r.collected(self@),
    { D::from_items(self) }
    pub fn vp_last(self) -> (r: Option<T>)
        ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }),
    { let mut v = self.v; v.pop() }
}
impl It<usize> {
    /// `sum` of machine words: no partial sum overflows
    pub fn vp_sum(self) -> (r: usize)
        requires total(self@) <= usize::MAX,
        ensures r == total(self@),
    {
        let ghost s = self@;
        let mut a: usize = 0;
        for x in it: self.v
            invariant it.seq() == s, total(s) <= usize::MAX, a == total(s.take(it.index@)),
        {
            proof {
                let k = it.index@;
                assert(s.take(k + 1).drop_last() =~= s.take(k));
                total_mono(s, k + 1);
            }
            a = a + x;
        }
        proof { assert(s.take(s.len() as int) =~= s); }
        a
    }
}
pub open spec fn total(s: Seq<usize>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
pub proof fn total_mono(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= total(s.take(k)) <= total(s),
    decreases s.len(),
{
    if k < s.len() { assert(s.drop_last().take(k) =~= s.take(k)); total_mono(s.drop_last(), k); }
    else { assert(s.take(k) =~= s); if s.len() > 0 { assert(s.drop_last().take(k - 1) =~= s.drop_last()); total_mono(s.drop_last(), k - 1); } }
}
/// where the items of part `i` are
pub proof fn flat_at<B>(parts: Seq<Seq<B>>, i: int)
    requires 0 <= i < parts.len(),
    ensures
        flat(parts.take(i + 1)) == flat(parts.take(i)) + parts[i],
        flat(parts.take(i)).len() + parts[i].len() <= flat(parts).len(),
        forall|k: int| 0 <= k < parts[i].len() ==> #[trigger] parts[i][k] == flat(parts)[flat(parts.take(i)).len() + k],
    decreases parts.len(),
{
    assert(parts.take(i + 1).drop_last() =~= parts.take(i));
    let q = parts.drop_last();
    if i == parts.len() - 1 { assert(parts.take(i + 1) =~= parts); }
    else { flat_at(q, i); assert(q.take(i) =~= parts.take(i)); assert(q[i] == parts[i]); }
}
/// the length of a concatenation is the sum of the lengths
pub proof fn flat_total<B>(parts: Seq<Seq<B>>)
    ensures forall|ts: Seq<usize>| #![trigger total(ts)] ts.len() == parts.len() && (forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i] == parts[i].len()) ==> total(ts) == flat(parts).len(),
    decreases parts.len(),
{
    assert forall|ts: Seq<usize>| #![trigger total(ts)] ts.len() == parts.len() && (forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i] == parts[i].len()) implies total(ts) == flat(parts).len() by {
        if parts.len() > 0 {
            flat_total(parts.drop_last());
            let t = ts.drop_last();
            assert(t.len() == parts.drop_last().len());
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == parts.drop_last()[i].len() by { assert(t[i] == ts[i]); }
            assert(total(t) == flat(parts.drop_last()).len());
            assert(ts[ts.len() - 1] == parts.last().len());
        }
    }
}
impl<T: Ord> It<T> {
    /// `Iterator::max`: the last of the greatest items
    pub fn vp_max(self) -> (r: Option<T>)
        requires T::obeys_cmp_spec(),
        ensures r == (if self@.len() == 0 { None } else { Some(maxof(self@)) }),
    {
        let ghost s = self@;
        let mut best: Option<T> = None;
        for x in it: self.v
            invariant it.seq() == s, T::obeys_cmp_spec(), best == (if it.index@ == 0 { None } else { Some(maxof(s.take(it.index@))) }),
        {
            proof { let k = it.index@; assert(s.take(k + 1).drop_last() =~= s.take(k)); }
            best = match best { None => Some(x), Some(b) => Some(crate::prelude::vp_max(b, x)) };
        }
        proof { assert(s.take(s.len() as int) =~= s); }
        best
    }
}
pub open spec fn maxof<T: Ord>(s: Seq<T>) -> T
    decreases s.len(),
{ if s.len() <= 1 { s[0] } else { crate::prelude::vmax(maxof(s.drop_last()), s.last()) } }
pub proof fn maxof_is<T: Ord + Clone>(s: Seq<T>)
    requires lawful::<T>(), s.len() > 0,
    ensures is_maxof(s, maxof(s)),
    decreases s.len(),
{
    if s.len() == 1 { leq_refl(s[0]); }
    else {
        let t = s.drop_last();
        maxof_is(t);
        let m = maxof(t); let x = s.last();
        leq_total(m, x); leq_refl(x);
        assert forall|i: int| 0 <= i < s.len() implies leq(#[trigger] s[i], maxof(s)) by {
            if i < t.len() { assert(s[i] == t[i]); if leq(m, x) { leq_trans(t[i], m, x); } }
        }
        let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == m;
        assert(s[k] == m && s[s.len() - 1] == x);
    }
}
pub open spec fn is_maxof<T: Ord>(s: Seq<T>, m: T) -> bool {
    (exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == m) && (forall|i: int| 0 <= i < s.len() ==> leq(#[trigger] s[i], m))
}
pub open spec fn part_of<T, B, F: Fn(T) -> It<B>>(f: F, x: T, p: Seq<B>) -> bool { exists|o: It<B>| #[trigger] f.ensures((x,), o) && o@ == p }
pub open spec fn flat_parts<T, B, F: Fn(T) -> It<B>>(s: Seq<T>, f: F, parts: Seq<Seq<B>>) -> bool {
    parts.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> part_of(f, s[i], #[trigger] parts[i])
}
/// concatenation
pub open spec fn flat<B>(parts: Seq<Seq<B>>) -> Seq<B>
    decreases parts.len(),
{ if parts.len() == 0 { Seq::empty() } else { flat(parts.drop_last()) + parts.last() } }
/// what holds of every item of every part holds of every item of the concatenation
pub proof fn flat_all<B>(parts: Seq<Seq<B>>, p: spec_fn(B) -> bool)
    requires forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() ==> p(#[trigger] parts[i][j]),
    ensures forall|k: int| 0 <= k < flat(parts).len() ==> p(#[trigger] flat(parts)[k]),
    decreases parts.len(),
{
    if parts.len() > 0 {
        let q = parts.drop_last();
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q[i].len() implies p(#[trigger] q[i][j]) by { assert(q[i][j] == parts[i][j]); }
        flat_all(q, p);
        assert forall|k: int| 0 <= k < flat(parts).len() implies p(#[trigger] flat(parts)[k]) by {
            if k < flat(q).len() { assert(flat(parts)[k] == flat(q)[k]); } else { assert(flat(parts)[k] == parts[parts.len() - 1][k - flat(q).len()]); }
        }
    }
}
pub open spec fn filter_keep<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, keep: Seq<bool>) -> bool {
    keep.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((&s[i],), #[trigger] keep[i])
}
/// the kept items in order
pub open spec fn select<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { let r = select(s.drop_last(), keep.drop_last()); if keep.last() { r.push(s.last()) } else { r } } }
pub open spec fn fm_res<T, B, F: Fn(T) -> Option<B>>(s: Seq<T>, f: F, res: Seq<Option<B>>) -> bool {
    res.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] res[i])
}
pub open spec fn somes<B>(res: Seq<Option<B>>) -> Seq<B>
    decreases res.len(),
{ if res.len() == 0 { Seq::empty() } else { match res.last() { Some(x) => somes(res.drop_last()).push(x), None => somes(res.drop_last()) } } }

/// targets of `collect`
pub trait VpCollect<T>: Sized {
    spec fn collected(self, s: Seq<T>) -> bool;
    fn from_items(i: It<T>) -> (r: Self)
        ensures r.collected(i@);
}
impl<T> VpCollect<T> for Vec<T> {
    open spec fn collected(self, s: Seq<T>) -> bool { self@ == s }
    fn from_items(i: It<T>) -> (r: Self) { i.v }
}

/// `itertools::equal` on items whose equality is identity
#[verifier::external_body]
pub fn vp_equal<T: PartialEq>(a: It<T>, b: It<T>) -> (r: bool)
    ensures eq_is_id::<T>() ==> r == (a@ =~= b@),
{ unimplemented!() }
/// `==` on `T` is identity
pub uninterp spec fn eq_is_id<T>() -> bool;
pub axiom fn axiom_eq_lawful<T: Ord + Clone>()
    requires lawful::<T>(),
    ensures eq_is_id::<T>();
/// assumption: `==` of a coefficient type is identity (it is derived)
pub axiom fn axiom_eq_triple<C: NonZeroCoefficient, R: Ord + Clone>()
    requires lawful::<R>(),
    ensures eq_is_id::<(C, R, crate::models::Unit)>();

/// half-open ranges of machine words
pub trait VpWord: Sized {
    spec fn wi(self) -> int;
    fn vp_range_to(self, b: Self) -> (r: It<Self>)
        ensures r@.len() == (if self.wi() <= b.wi() { b.wi() - self.wi() } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).wi() == self.wi() + i;
    fn vp_range_incl_to(self, b: Self) -> (r: It<Self>)
        ensures r@.len() == (if self.wi() <= b.wi() { b.wi() - self.wi() + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).wi() == self.wi() + i;
}
macro_rules! words { ($($t:ty),*) => { verus!{ $(
impl VpWord for $t {
    open spec fn wi(self) -> int { self as int }
    fn vp_range_to(self, b: $t) -> (r: It<$t>) {
        let a = self;
        let mut out: Vec<$t> = Vec::new();
        let mut i = a;
        while i < b
            invariant a <= i, i <= b || out@.len() == 0, out@.len() == i - a, forall|j: int| 0 <= j < out@.len() ==> #[trigger] out@[j] == a + j,
            decreases b - i,
        { out.push(i); i += 1; }
        It { v: out }
    }
    fn vp_range_incl_to(self, b: $t) -> (r: It<$t>) {
        let a = self;
        let mut out = a.vp_range_to(b).v;
        if a <= b { out.push(b); }
        It { v: out }
    }
}
)* } } }
words!(usize, u16, u32);
pub fn vp_range<W: VpWord>(a: W, b: W) -> (r: It<W>)
    ensures r@.len() == (if a.wi() <= b.wi() { b.wi() - a.wi() } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).wi() == a.wi() + i,
{ a.vp_range_to(b) }
pub fn vp_range_incl<W: VpWord>(a: W, b: W) -> (r: It<W>)
    ensures r@.len() == (if a.wi() <= b.wi() { b.wi() - a.wi() + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).wi() == a.wi() + i,
{ a.vp_range_incl_to(b) }
/// `bool::then`
pub fn vp_then<T, F: FnOnce() -> T>(b: bool, f: F) -> (r: Option<T>)
    requires b ==> f.requires(()),
    ensures b ==> r is Some && f.ensures((), r->0), !b ==> r is None,
{ if b { Some(f()) } else { None } }
impl<T> It<It<T>> {
    pub fn flatten(self) -> (r: It<T>)
        ensures r@ == flat(its(self@)),
    {
        let mut out: Vec<T> = Vec::new();
        let ghost s = self@;
        for x in it: self.v
            invariant it.seq() == s, out@ == flat(its(s.take(it.index@))),
        {
            let mut y = x;
            proof { let k = it.index@; assert(its(s.take(k + 1)).drop_last() =~= its(s.take(k))); assert(its(s.take(k + 1)).last() == y@); }
            out.append(&mut y.v);
        }
        proof { assert(s.take(s.len() as int) =~= s); }
        It { v: out }
    }
}
pub open spec fn its<T>(s: Seq<It<T>>) -> Seq<Seq<T>> { s.map_values(|x: It<T>| x@) }
pub fn vp_vec1<T>(a: T) -> (r: Vec<T>)
    ensures r@ =~= seq![a],
{ let mut v = Vec::new(); v.push(a); v }
pub fn vp_vec2<T>(a: T, b: T) -> (r: Vec<T>)
    ensures r@ =~= seq![a, b],
{ let mut v = Vec::new(); v.push(a); v.push(b); v }

} // verus!
