//! Filtered digraphs: two-paths and bridges; lists of the items an iterator chain leaves over.
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::NonZeroCoefficient;
verus! {

pub open spec fn lex5(a: int, b: int, c: int, d: int, e: int) -> int { (((a * 65536 + b) * 65536 + c) * 65536 + d) * 65536 + e }
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

pub type Time = NotNan<f64>;
/// time of every edge (None: never)
pub type Et = spec_fn(u16, u16) -> Option<Time>;
/// the time at which the path a -> b -> c is allowed
pub open spec fn two(e: Et, a: u16, b: u16, c: u16) -> Option<Time> {
    match (e(a, b), e(b, c)) { (Some(x), Some(y)) => Some(vmax(x, y)), _ => None }
}
/// strictly before the direct edge
pub open spec fn before(t: Time, d: Option<Time>) -> bool { match d { Some(u) => lt(t, u), None => true } }
/// no finite-time self loops, only finite times
pub open spec fn e_ok(e: Et, n: u16) -> bool {
    &&& forall|s: u16| s < n ==> #[trigger] e(s, s) is None
    &&& forall|s: u16, t: u16| s < n && t < n && (#[trigger] e(s, t)) is Some ==> lt(e(s, t)->0, nn(f64_inf()))
}
/// the earliest, then smallest-numbered, intermediate vertex
pub open spec fn is_best(e: Et, n: u16, a: u16, c: u16, b: u16) -> bool {
    &&& b < n && two(e, a, b, c) is Some
    &&& forall|i: u16| i < n && (#[trigger] two(e, a, i, c)) is Some ==> leq2((two(e, a, b, c)->0, b), (two(e, a, i, c)->0, i))
}
pub open spec fn is_bridge(e: Et, n: u16, a: u16, c: u16, b: u16) -> bool { is_best(e, n, a, c, b) && before(two(e, a, b, c)->0, e(a, c)) }
pub open spec fn has_bridge(e: Et, n: u16, a: u16, c: u16) -> bool { exists|b: u16| #[trigger] is_bridge(e, n, a, c, b) }
/// the map records the primary bridges
pub open spec fn bm_ok(m: Map<(u16, u16), u16>, e: Et, n: u16) -> bool {
    &&& forall|a: u16, c: u16| #[trigger] m.dom().contains((a, c)) ==> a < n && c < n && is_bridge(e, n, a, c, m[(a, c)])
    &&& forall|a: u16, b: u16, c: u16| a < n && b < n && c < n && (#[trigger] two(e, a, b, c)) is Some && before(two(e, a, b, c)->0, e(a, c)) ==> m.dom().contains((a, c))
}
pub proof fn bridge_unique(e: Et, n: u16, a: u16, c: u16, b: u16, d: u16)
    requires is_bridge(e, n, a, c, b), is_bridge(e, n, a, c, d),
    ensures b == d,
{
    time_lawful();
    leq2_order((two(e, a, b, c)->0, b), (two(e, a, d, c)->0, d), (two(e, a, b, c)->0, b));
}
pub proof fn u16_lawful()
    ensures lawful::<u16>(),
{ reveal(lawful); }
pub proof fn time_lawful()
    ensures lawful::<Time>(), lawful::<u16>(), Time::obeys_cmp_spec(), <u16 as OrdSpec>::obeys_cmp_spec(),
        <Time as PartialOrdSpec>::obeys_partial_cmp_spec(),
        forall|a: Time, b: Time| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(OrdSpec::cmp_spec(&a, &b)),
        forall|a: Time, b: Time| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == rev_ord(OrdSpec::cmp_spec(&b, &a)),
        forall|a: Time, b: Time| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == Ordering::Equal <==> a == b,
{
    axiom_notnan_lawful::<Time>(); axiom_notnan_partial(); u16_lawful(); lawful_cmp::<Time>(); lawful_cmp::<u16>();
    assert forall|a: Time, b: Time| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == rev_ord(OrdSpec::cmp_spec(&b, &a)) by { leq_total(a, b); leq_total(b, a); }
}

// ------------------------------------------------------------ what filters leave over

/// `s` has no repetitions, only numbers below `n` and all of those that `must` be there
pub open spec fn sieve(s: Seq<u16>, n: u16, must: spec_fn(u16) -> bool) -> bool {
    &&& s.no_duplicates()
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < n
    &&& forall|i: u16| i < n && #[trigger] must(i) ==> s.contains(i)
}
pub proof fn sieve_range(n: u16, must: spec_fn(u16) -> bool)
    ensures forall|s: Seq<u16>| s.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).wi() == k) ==> #[trigger] sieve(s, n, must),
{
    assert forall|s: Seq<u16>| s.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).wi() == k) implies #[trigger] sieve(s, n, must) by {
        assert forall|i: u16| i < n && #[trigger] must(i) implies s.contains(i) by { assert(s[i as int].wi() == i); assert(s[i as int] == i); }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(s[i].wi() == i && s[j].wi() == j); }
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < n by { assert(s[k].wi() == k); }
    }
}
/// (the same for ranges that are not filtered further)
pub proof fn sieve_full(n: u16, must: spec_fn(u16) -> bool)
    ensures forall|s: Seq<u16>| #![trigger s.len()] s.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).wi() == k) ==> sieve(s, n, must),
{ sieve_range(n, must); }
pub proof fn select_in<T>(s: Seq<T>, keep: Seq<bool>)
    requires keep.len() == s.len(),
    ensures
        forall|k: int| #![trigger select(s, keep)[k]] 0 <= k < select(s, keep).len() ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == select(s, keep)[k] && keep[i],
        forall|i: int| #![trigger s[i]] #![trigger keep[i]] 0 <= i < s.len() && keep[i] ==> select(s, keep).contains(s[i]),
        s.no_duplicates() ==> select(s, keep).no_duplicates(),
    decreases s.len(),
{
    if s.len() > 0 {
        let (t, q) = (s.drop_last(), keep.drop_last());
        let (r, r1) = (select(s, keep), select(t, q));
        select_in(t, q);
        assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == r[k] && keep[i] by {
            if k < r1.len() {
                let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == r1[k] && q[i];
                assert(s[i] == r[k] && keep[i]);
            } else { assert(s[s.len() - 1] == r[k]); }
        }
        assert forall|i: int| 0 <= i < s.len() && keep[i] implies #[trigger] r.contains(s[i]) by {
            if i < t.len() {
                assert(t[i] == s[i] && q[i]);
                let k = r1.index_of(t[i]);
                assert(r1[k] == t[i]);
                assert(r[k] == s[i]);
            } else { assert(r[r.len() - 1] == s[i]); }
        }
        if s.no_duplicates() {
            assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(t[i] == s[i] && t[j] == s[j]); } }
            assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i < j implies r[i] != r[j] by {
                if j < r1.len() { assert(r[i] == r1[i] && r[j] == r1[j]); }
                else {
                    let p = choose|p: int| 0 <= p < t.len() && #[trigger] t[p] == r1[i] && q[p];
                    assert(s[p] == r[i]);
                    assert(r[j] == s[s.len() - 1]);
                }
            }
        }
    }
}
/// filters that keep everything that must stay leave a sieve, and whatever is gone stays gone
pub proof fn sieve_filter(n: u16, must: spec_fn(u16) -> bool)
    ensures
        forall|s: Seq<u16>, keep: Seq<bool>| #![trigger select(s, keep)] sieve(s, n, must) && keep.len() == s.len() && (forall|k: int| 0 <= k < s.len() && must(s[k]) ==> #[trigger] keep[k]) ==> sieve(select(s, keep), n, must),
        forall|s: Seq<u16>, keep: Seq<bool>, k: int| #![trigger select(s, keep)[k]] keep.len() == s.len() && 0 <= k < select(s, keep).len() ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == select(s, keep)[k] && keep[i],
{
    assert forall|s: Seq<u16>, keep: Seq<bool>| #![trigger select(s, keep)] sieve(s, n, must) && keep.len() == s.len() && (forall|k: int| 0 <= k < s.len() && must(s[k]) ==> #[trigger] keep[k]) implies sieve(select(s, keep), n, must) by {
        select_in(s, keep);
        let r = select(s, keep);
        assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < n by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == r[k] && keep[i]; }
        assert forall|i: u16| i < n && #[trigger] must(i) implies r.contains(i) by { assert(s.contains(i)); let k = s.index_of(i); assert(s[k] == i); assert(keep[k]); }
    }
    assert forall|s: Seq<u16>, keep: Seq<bool>, k: int| #![trigger select(s, keep)[k]] keep.len() == s.len() && 0 <= k < select(s, keep).len() implies exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == select(s, keep)[k] && keep[i] by { select_in(s, keep); }
}
/// the present items, one by one
pub proof fn somes_in<B>(res: Seq<Option<B>>)
    ensures
        forall|k: int| #![trigger somes(res)[k]] 0 <= k < somes(res).len() ==> exists|i: int| 0 <= i < res.len() && #[trigger] res[i] == Some(somes(res)[k]),
        forall|i: int| 0 <= i < res.len() && (#[trigger] res[i]) is Some ==> somes(res).contains(res[i]->0),
    decreases res.len(),
{
    if res.len() > 0 {
        let t = res.drop_last();
        let (r, r1) = (somes(res), somes(t));
        somes_in(t);
        assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies exists|i: int| 0 <= i < res.len() && #[trigger] res[i] == Some(r[k]) by {
            if k < r1.len() {
                let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == Some(r1[k]);
                assert(res[i] == Some(r[k]));
            } else { assert(res[res.len() - 1] == Some(r[k])); }
        }
        assert forall|i: int| 0 <= i < res.len() && (#[trigger] res[i]) is Some implies r.contains(res[i]->0) by {
            if i < t.len() {
                assert(t[i] == res[i]);
                let k = r1.index_of(t[i]->0);
                assert(r1[k] == t[i]->0);
                assert(r[k] == res[i]->0);
            } else { assert(r[r.len() - 1] == res[i]->0); }
        }
    }
}

// ------------------------------------------------------------ coefficients of lists of timed cells

/// the linear combination in a list of timed entries
pub open spec fn cps<C, X>(s: Seq<(C, X, Time)>) -> Seq<(C, X)> { s.map_values(|t: (C, X, Time)| (t.0, t.1)) }
pub open spec fn cc<C: NonZeroCoefficient, X>(s: Seq<(C, X, Time)>, x: X) -> Option<C> { coef(cps(s), x) }
pub proof fn cc_append<C: NonZeroCoefficient, X>(s: Seq<(C, X, Time)>, t: Seq<(C, X, Time)>, x: X)
    requires is_ring::<C>(),
    ensures cc(s + t, x) == sadd(cc(s, x), cc(t, x)),
{ assert(cps(s + t) =~= cps(s) + cps(t)); coef_append(cps(s), cps(t), x); }
/// a cell that occurs in one part only
pub proof fn cc_flat<C: NonZeroCoefficient, X>(parts: Seq<Seq<(C, X, Time)>>, x: X, p: int)
    requires is_ring::<C>(), forall|i: int| 0 <= i < parts.len() && i != p ==> cc(#[trigger] parts[i], x) is None,
    ensures cc(flat(parts), x) == (if 0 <= p < parts.len() { cc(parts[p], x) } else { None }),
    decreases parts.len(),
{
    if parts.len() > 0 {
        let q = parts.drop_last();
        assert forall|i: int| 0 <= i < q.len() && i != p implies cc(#[trigger] q[i], x) is None by { assert(q[i] == parts[i]); }
        cc_flat(q, x, p);
        cc_append(flat(q), parts.last(), x);
        let l = parts.len() - 1;
        if p != l { assert(cc(parts[l], x) is None); if 0 <= p < l { assert(q[p] == parts[p]); } }
    } else { assert(cps(flat(parts)) =~= Seq::empty()); }
}
pub open spec fn topt<C: NonZeroCoefficient, X>(o: Option<(C, X, Time)>, x: X) -> Option<C> { match o { Some(t) if t.1 == x => Some(t.0), _ => None } }
/// a cell that one call yields only
pub proof fn cc_somes<C: NonZeroCoefficient, X>(res: Seq<Option<(C, X, Time)>>, x: X, p: int)
    requires is_ring::<C>(), forall|i: int| 0 <= i < res.len() && i != p ==> topt(#[trigger] res[i], x) is None,
    ensures cc(somes(res), x) == (if 0 <= p < res.len() { topt(res[p], x) } else { None }),
    decreases res.len(),
{
    if res.len() > 0 {
        let q = res.drop_last();
        let l = res.len() - 1;
        assert forall|i: int| 0 <= i < q.len() && i != p implies topt(#[trigger] q[i], x) is None by { assert(q[i] == res[i]); }
        cc_somes(q, x, p);
        if res[l] is Some {
            let t = res[l]->0;
            assert(cps(somes(res)) =~= cps(somes(q)).push((t.0, t.1)));
            coef_push(cps(somes(q)), (t.0, t.1), x);
            assert(term((t.0, t.1), x) == topt(res[l], x));
        }
        if p != l { assert(topt(res[l], x) is None); if 0 <= p < l { assert(q[p] == res[p]); } }
    } else { assert(cps(somes(res)) =~= Seq::empty()); }
}
/// every entry of a list with distinct cells and one coefficient
pub proof fn cc_once<C: NonZeroCoefficient, X>(s: Seq<(C, X, Time)>, c: C)
    requires is_ring::<C>(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 != (#[trigger] s[j]).1, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == c,
    ensures
        forall|i: int| 0 <= i < s.len() ==> cc(s, (#[trigger] s[i]).1) == Some(c),
        forall|x: X| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 != x) ==> (#[trigger] cc(s, x)) is None,
{
    let p = cps(s);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).1 != (#[trigger] p[j]).1 by { assert(s[i].1 != s[j].1); }
    assert forall|i: int| 0 <= i < s.len() implies cc(s, (#[trigger] s[i]).1) == Some(c) by { coef_distinct(p, i); assert(p[i].1 == s[i].1); }
    assert forall|x: X| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 != x) implies (#[trigger] cc(s, x)) is None by {
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).1 != x by { assert(s[i].1 != x); }
        coef_absent(p, x);
    }
}
/// combinations written out entry by entry
pub proof fn coef_pushes<C: NonZeroCoefficient, R>(r: R)
    ensures coef(Seq::<(C, R)>::empty(), r) is None, forall|s: Seq<(C, R)>, e: (C, R)| #[trigger] coef(s.push(e), r) == sadd(coef(s, r), term(e, r)),
{ assert forall|s: Seq<(C, R)>, e: (C, R)| #[trigger] coef(s.push(e), r) == sadd(coef(s, r), term(e, r)) by { coef_push(s, e, r); } }

// ------------------------------------------------------------ lists described by coefficients and items

/// every cell has the stated coefficient and every item is as stated
#[verifier::opaque]
pub open spec fn tot<C: NonZeroCoefficient, X>(s: Seq<(C, X, Time)>, co: spec_fn(X) -> Option<C>, ok: spec_fn(X, Time) -> bool) -> bool {
    &&& forall|x: X| (#[trigger] cc(s, x)) == co(x)
    &&& all_ok(s, ok)
}
pub open spec fn all_ok<C, X>(s: Seq<(C, X, Time)>, ok: spec_fn(X, Time) -> bool) -> bool { forall|k: int| 0 <= k < s.len() ==> ok((#[trigger] s[k]).1, s[k].2) }
pub open spec fn osum<C: NonZeroCoefficient, X>(a: spec_fn(X) -> Option<C>, b: spec_fn(X) -> Option<C>) -> spec_fn(X) -> Option<C> { |x: X| sadd(a(x), b(x)) }
pub proof fn tot_append<C: NonZeroCoefficient, X>(ok: spec_fn(X, Time) -> bool)
    requires is_ring::<C>(),
    ensures forall|s: Seq<(C, X, Time)>, t: Seq<(C, X, Time)>, a: spec_fn(X) -> Option<C>, b: spec_fn(X) -> Option<C>| #![trigger tot(s, a, ok), tot(t, b, ok), s + t] tot(s, a, ok) && tot(t, b, ok) ==> tot(s + t, osum(a, b), ok),
{
    reveal(tot);
    assert forall|s: Seq<(C, X, Time)>, t: Seq<(C, X, Time)>, a: spec_fn(X) -> Option<C>, b: spec_fn(X) -> Option<C>| #![trigger tot(s, a, ok), tot(t, b, ok), s + t] tot(s, a, ok) && tot(t, b, ok) implies tot(s + t, osum(a, b), ok) by {
        assert forall|x: X| (#[trigger] cc(s + t, x)) == osum(a, b)(x) by { cc_append(s, t, x); assert(cc(s, x) == a(x)); assert(cc(t, x) == b(x)); }
        assert forall|k: int| 0 <= k < (s + t).len() implies ok((#[trigger] (s + t)[k]).1, (s + t)[k].2) by {
            if k < s.len() { assert((s + t)[k] == s[k]); } else { assert((s + t)[k] == t[k - s.len()]); }
        }
    }
}
/// at most one item
pub proof fn tot_small<C: NonZeroCoefficient, X>(ok: spec_fn(X, Time) -> bool)
    ensures
        forall|s: Seq<(C, X, Time)>, x: X| s.len() == 0 ==> (#[trigger] cc(s, x)) is None,
        forall|s: Seq<(C, X, Time)>, x: X| s.len() == 1 ==> (#[trigger] cc(s, x)) == topt(Some(s[0]), x),
{
    let e = Seq::<(C, X)>::empty();
    assert forall|s: Seq<(C, X, Time)>, x: X| s.len() == 0 implies (#[trigger] cc(s, x)) is None by { assert(cps(s) =~= e); }
    assert forall|s: Seq<(C, X, Time)>, x: X| s.len() == 1 implies (#[trigger] cc(s, x)) == topt(Some(s[0]), x) by {
        assert(cps(s) =~= e.push((s[0].0, s[0].1)));
        coef_push(e, (s[0].0, s[0].1), x);
    }
}
pub proof fn flat_small<B>()
    ensures forall|parts: Seq<Seq<B>>| #![trigger flat(parts)] (parts.len() == 0 ==> flat(parts) == Seq::<B>::empty()) && (parts.len() == 1 ==> flat(parts) == parts[0]),
{
    assert forall|parts: Seq<Seq<B>>| #![trigger flat(parts)] (parts.len() == 0 ==> flat(parts) == Seq::<B>::empty()) && (parts.len() == 1 ==> flat(parts) == parts[0]) by {
        if parts.len() == 1 { assert(flat(parts.drop_last()) == Seq::<B>::empty()); assert(flat(parts) =~= parts[0]); }
    }
}
/// the numbers that a partial function on numbers is defined on
pub open spec fn on<B>(g: spec_fn(u16) -> Option<B>) -> spec_fn(u16) -> bool { |i: u16| g(i) is Some }
pub open spec fn res_by<B>(s: Seq<u16>, res: Seq<Option<B>>, g: spec_fn(u16) -> Option<B>) -> bool { res.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] res[k] == g(s[k]) }
/// a partial function applied to a sieve: cell `x` comes from number `at(x)` only
pub proof fn tot_somes<C: NonZeroCoefficient, X>(n: u16, g: spec_fn(u16) -> Option<(C, X, Time)>, at: spec_fn(X) -> u16, co: spec_fn(X) -> Option<C>, ok: spec_fn(X, Time) -> bool)
    requires
        is_ring::<C>(),
        forall|i: u16, x: X| i < n && i != at(x) ==> (#[trigger] topt(g(i), x)) is None,
        forall|x: X| (#[trigger] co(x)) == (if at(x) < n { topt(g(at(x)), x) } else { None }),
        forall|i: u16| i < n && (#[trigger] g(i)) is Some ==> ok((g(i)->0).1, (g(i)->0).2),
    ensures forall|s: Seq<u16>, res: Seq<Option<(C, X, Time)>>| #![trigger sieve(s, n, on(g)), somes(res)] sieve(s, n, on(g)) && res_by(s, res, g) ==> tot(somes(res), co, ok),
{
    reveal(tot);
    assert forall|s: Seq<u16>, res: Seq<Option<(C, X, Time)>>| #![trigger sieve(s, n, on(g)), somes(res)] sieve(s, n, on(g)) && res_by(s, res, g) implies tot(somes(res), co, ok) by {
        assert forall|x: X| (#[trigger] cc(somes(res), x)) == co(x) by {
            let p = if s.contains(at(x)) { s.index_of(at(x)) } else { -1 };
            assert forall|i: int| 0 <= i < res.len() && i != p implies topt(#[trigger] res[i], x) is None by {
                assert(s[i] < n);
                if s[i] == at(x) { assert(s.contains(at(x))); assert(s[p] == s[i]); }
                assert(topt(g(s[i]), x) is None);
            }
            cc_somes(res, x, p);
            if p == -1 && at(x) < n { if g(at(x)) is Some { assert(on(g)(at(x))); } }
            if p != -1 { assert(s[p] == at(x)); assert(res[p] == g(at(x))); }
        }
        somes_in(res);
        assert forall|k: int| 0 <= k < somes(res).len() implies ok((#[trigger] somes(res)[k]).1, somes(res)[k].2) by {
            let i = choose|i: int| 0 <= i < res.len() && #[trigger] res[i] == Some(somes(res)[k]);
            assert(s[i] < n);
            assert(res[i] == g(s[i]));
        }
    }
}
pub open spec fn part_tots<C: NonZeroCoefficient, X>(s: Seq<u16>, parts: Seq<Seq<(C, X, Time)>>, h: spec_fn(u16) -> (spec_fn(X) -> Option<C>), ok: spec_fn(X, Time) -> bool) -> bool {
    parts.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> tot(#[trigger] parts[k], h(s[k]), ok)
}
/// lists for the numbers of a sieve, one after the other: cell `x` occurs for number `at(x)` only
pub proof fn tot_flat<C: NonZeroCoefficient, X>(n: u16, must: spec_fn(u16) -> bool, h: spec_fn(u16) -> (spec_fn(X) -> Option<C>), at: spec_fn(X) -> u16, co: spec_fn(X) -> Option<C>, ok: spec_fn(X, Time) -> bool)
    requires
        is_ring::<C>(),
        forall|i: u16, x: X| i < n && i != at(x) ==> (#[trigger] h(i)(x)) is None,
        forall|i: u16, x: X| i < n && (#[trigger] h(i)(x)) is Some ==> must(i),
        forall|x: X| (#[trigger] co(x)) == (if at(x) < n { h(at(x))(x) } else { None }),
    ensures forall|s: Seq<u16>, parts: Seq<Seq<(C, X, Time)>>| #![trigger sieve(s, n, must), flat(parts)] sieve(s, n, must) && part_tots(s, parts, h, ok) ==> tot(flat(parts), co, ok),
{
    reveal(tot);
    assert forall|s: Seq<u16>, parts: Seq<Seq<(C, X, Time)>>| #![trigger sieve(s, n, must), flat(parts)] sieve(s, n, must) && part_tots(s, parts, h, ok) implies tot(flat(parts), co, ok) by {
        assert forall|x: X| (#[trigger] cc(flat(parts), x)) == co(x) by {
            let p = if s.contains(at(x)) { s.index_of(at(x)) } else { -1 };
            assert forall|i: int| 0 <= i < parts.len() && i != p implies cc(#[trigger] parts[i], x) is None by {
                assert(s[i] < n);
                if s[i] == at(x) { assert(s.contains(at(x))); assert(s[p] == s[i]); }
                assert(tot(parts[i], h(s[i]), ok));
                assert(cc(parts[i], x) == h(s[i])(x));
            }
            cc_flat(parts, x, p);
            if p == -1 && at(x) < n { if h(at(x))(x) is Some { assert(must(at(x))); } }
            if p != -1 { assert(s[p] == at(x)); assert(tot(parts[p], h(s[p]), ok)); assert(cc(parts[p], x) == h(s[p])(x)); }
        }
        let q = |t: (C, X, Time)| ok(t.1, t.2);
        assert forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() implies q(#[trigger] parts[i][j]) by { assert(tot(parts[i], h(s[i]), ok)); }
        flat_all(parts, q);
        assert forall|k: int| 0 <= k < flat(parts).len() implies ok((#[trigger] flat(parts)[k]).1, flat(parts)[k].2) by { assert(q(flat(parts)[k])); }
    }
}
/// all distinct and exactly those wanted, with their times
pub open spec fn exactly<X>(s: Seq<(X, Time)>, want: spec_fn(X) -> bool, time: spec_fn(X) -> Time) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> want((#[trigger] s[i]).0) && s[i].1 == time(s[i].0)
    &&& forall|x: X| #[trigger] want(x) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x
}
pub proof fn somes_exactly<X>(n: u16, g: spec_fn(u16) -> Option<(X, Time)>, at: spec_fn(X) -> u16, want: spec_fn(X) -> bool, time: spec_fn(X) -> Time)
    requires
        forall|i: u16| i < n && (#[trigger] g(i)) is Some ==> at((g(i)->0).0) == i && want((g(i)->0).0) && (g(i)->0).1 == time((g(i)->0).0),
        forall|x: X| #[trigger] want(x) ==> at(x) < n && g(at(x)) is Some && (g(at(x))->0).0 == x,
    ensures forall|s: Seq<u16>, res: Seq<Option<(X, Time)>>| #![trigger sieve(s, n, on(g)), somes(res)] sieve(s, n, on(g)) && res_by(s, res, g) ==> exactly(somes(res), want, time),
{
    assert forall|s: Seq<u16>, res: Seq<Option<(X, Time)>>| #![trigger sieve(s, n, on(g)), somes(res)] sieve(s, n, on(g)) && res_by(s, res, g) implies exactly(somes(res), want, time) by {
        let r = somes(res);
        somes_in(res);
        assert forall|i: int| 0 <= i < r.len() implies want((#[trigger] r[i]).0) && r[i].1 == time(r[i].0) by {
            let k = choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == Some(r[i]);
            assert(s[k] < n); assert(res[k] == g(s[k]));
        }
        assert forall|x: X| #[trigger] want(x) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == x by {
            assert(on(g)(at(x)));
            assert(s.contains(at(x)));
            let k = s.index_of(at(x));
            assert(s[k] == at(x)); assert(res[k] == g(s[k]));
            assert(r.contains(res[k]->0));
            let i = r.index_of(res[k]->0);
            assert(r[i].0 == x);
        }
        somes_distinct(s, res, n, g, at);
    }
}
proof fn somes_distinct<X>(s: Seq<u16>, res: Seq<Option<(X, Time)>>, n: u16, g: spec_fn(u16) -> Option<(X, Time)>, at: spec_fn(X) -> u16)
    requires
        forall|i: u16| i < n && (#[trigger] g(i)) is Some ==> at((g(i)->0).0) == i,
        s.no_duplicates(), forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < n, res_by(s, res, g),
    ensures forall|i: int, j: int| 0 <= i < j < somes(res).len() ==> (#[trigger] somes(res)[i]).0 != (#[trigger] somes(res)[j]).0,
    decreases s.len(),
{
    if s.len() > 0 {
        let (t, q) = (s.drop_last(), res.drop_last());
        assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(t[i] == s[i] && t[j] == s[j]); } }
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] < n by { assert(t[k] == s[k]); }
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] q[k] == g(t[k]) by { assert(q[k] == res[k]); }
        somes_distinct(t, q, n, g, at);
        somes_in(q);
        let (r, r1) = (somes(res), somes(q));
        let l = s.len() - 1;
        assert(res[l] == g(s[l]));
        assert(s[l] < n);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by {
            if j < r1.len() { assert(r[i] == r1[i] && r[j] == r1[j]); }
            else {
                let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == Some(r1[i]);
                assert(r[i] == r1[i]);
                assert(q[k] == g(t[k]));
                assert(t[k] == s[k] && t[k] < n);
                assert(at(r[i].0) == s[k] && at(r[j].0) == s[l]);
            }
        }
    }
}
/// the wanted cells with one and the same coefficient
pub proof fn tot_exactly<C: NonZeroCoefficient, X>(want: spec_fn(X) -> bool, time: spec_fn(X) -> Time, c: C, co: spec_fn(X) -> Option<C>, ok: spec_fn(X, Time) -> bool)
    requires
        is_ring::<C>(),
        forall|x: X| (#[trigger] co(x)) == (if want(x) { Some(c) } else { None }),
        forall|x: X| #[trigger] want(x) ==> ok(x, time(x)),
    ensures forall|s: Seq<(X, Time)>, r: Seq<(C, X, Time)>| #![trigger exactly(s, want, time), with_coef(s, r, c)] exactly(s, want, time) && with_coef(s, r, c) ==> tot(r, co, ok),
{
    reveal(tot);
    assert forall|s: Seq<(X, Time)>, r: Seq<(C, X, Time)>| #![trigger exactly(s, want, time), with_coef(s, r, c)] exactly(s, want, time) && with_coef(s, r, c) implies tot(r, co, ok) by {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).1 != (#[trigger] r[j]).1 by { assert(s[i].0 != s[j].0); }
        cc_once(r, c);
        assert forall|x: X| (#[trigger] cc(r, x)) == co(x) by {
            if want(x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x; assert(r[i].1 == x); }
            else { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 != x by { assert(want(s[i].0)); } }
        }
        assert forall|k: int| 0 <= k < r.len() implies ok((#[trigger] r[k]).1, r[k].2) by { assert(want(s[k].0) && s[k].1 == time(s[k].0)); }
    }
}
pub open spec fn with_coef<C, X>(s: Seq<(X, Time)>, r: Seq<(C, X, Time)>, c: C) -> bool { r.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] r[k] == (c, s[k].0, s[k].1) }


/// each wanted item once
#[verifier::opaque]
pub open spec fn lists<T>(s: Seq<T>, w: spec_fn(T) -> bool) -> bool { s.no_duplicates() && forall|x: T| #![trigger w(x)] #![trigger s.contains(x)] s.contains(x) <==> w(x) }
pub proof fn lists_push<T>(s: Seq<T>, w: spec_fn(T) -> bool, x: T, w2: spec_fn(T) -> bool)
    requires lists(s, w), !w(x), forall|y: T| #[trigger] w2(y) <==> w(y) || y == x,
    ensures lists(s.push(x), w2),
{
    reveal(lists);
    let r = s.push(x);
    assert(!s.contains(x)) by { assert(w(x) == s.contains(x)); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
        if i == s.len() { assert(r[j] == s[j]); } else if j == s.len() { assert(r[i] == s[i]); } else { assert(r[i] == s[i] && r[j] == s[j]); }
    }
    assert forall|y: T| r.contains(y) <==> #[trigger] w2(y) by {
        if s.contains(y) { let k = s.index_of(y); assert(r[k] == y); assert(w(y)); }
        if y == x { assert(r[s.len() as int] == x); }
        if r.contains(y) { let k = r.index_of(y); assert(r[k] == y); if k < s.len() { assert(s[k] == y); assert(s.contains(y)); assert(w(y)); } }
        if w(y) { assert(s.contains(y)); }
    }
}
/// sorting keeps what is listed
pub proof fn lists_sorted<A: Ord, B: Ord>(s: Seq<(A, B)>, w: spec_fn((A, B)) -> bool)
    requires lists(s, w),
    ensures forall|r: Seq<(A, B)>| #[trigger] sorted2(r) && r.to_multiset() == s.to_multiset() ==> lists(r, w),
{
    reveal(lists);
    assert forall|r: Seq<(A, B)>| #[trigger] sorted2(r) && r.to_multiset() == s.to_multiset() implies lists(r, w) by {
        s.to_multiset_ensures();
        r.to_multiset_ensures();
        s.lemma_multiset_has_no_duplicates();
        assert forall|x: (A, B)| r.to_multiset().contains(x) implies r.to_multiset().count(x) == 1 by {}
        r.lemma_multiset_has_no_duplicates_conv();
        assert forall|x: (A, B)| r.contains(x) <==> #[trigger] w(x) by { assert(r.to_multiset().count(x) == s.to_multiset().count(x)); assert(s.contains(x) <==> w(x)); }
    }
}

} // verus!
