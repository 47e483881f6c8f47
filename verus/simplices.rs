//! Simplices as vertex lists and their codes in base `n_points + 1`.
use vstd::prelude::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use crate::ints::*;
use crate::iters::*;
use crate::lawful::*;
use crate::models::*;
use crate::prelude::*;
verus! {

pub open spec fn all_below(vs: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < vs.len() ==> 0 <= #[trigger] vs[i] < n }
/// the code of a vertex list: digit i is vertex i plus one
pub open spec fn code(vs: Seq<usize>, b: int) -> int
    decreases vs.len(),
{ if vs.len() == 0 { 0 } else { code(vs.drop_last(), b) + pow(b, (vs.len() - 1) as nat) * (vs.last() + 1) } }
pub open spec fn is_code(c: usize, n: usize) -> bool { exists|vs: Seq<usize>| all_below(vs, n as int) && #[trigger] code(vs, n + 1) == c }
/// the vertices encoded by `c`
pub open spec fn verts(c: usize, n: usize) -> Seq<usize> { choose|vs: Seq<usize>| all_below(vs, n as int) && #[trigger] code(vs, n + 1) == c }

pub proof fn code_front(vs: Seq<usize>, b: int)
    requires vs.len() > 0,
    ensures code(vs, b) == vs[0] + 1 + b * code(vs.drop_first(), b),
    decreases vs.len(),
{
    lemma_pow0(b);
    if vs.len() == 1 {
        assert(vs.drop_first() =~= Seq::<usize>::empty());
        assert(vs.drop_last() =~= Seq::<usize>::empty());
        assert(code(vs.drop_last(), b) == 0);
        assert(b * 0 == 0) by (nonlinear_arith);
    } else {
        code_front(vs.drop_last(), b);
        let d = vs.drop_first();
        assert(vs.drop_last().drop_first() =~= d.drop_last());
        let n = (vs.len() - 2) as nat;
        reveal(pow);
        assert(pow(b, n + 1) == b * pow(b, n));
        let x = code(d.drop_last(), b);
        let l = vs.last() + 1;
        assert(b * x + (b * pow(b, n)) * l == b * (x + pow(b, n) * l)) by (nonlinear_arith);
        assert(d.last() == vs.last());
    }
}
pub proof fn code_nonneg(vs: Seq<usize>, b: int)
    requires b >= 1,
    ensures code(vs, b) >= 0,
    decreases vs.len(),
{
    if vs.len() > 0 {
        code_nonneg(vs.drop_last(), b);
        lemma_pow_positive(b, (vs.len() - 1) as nat);
        assert(pow(b, (vs.len() - 1) as nat) * (vs.last() + 1) >= 0) by (nonlinear_arith) requires pow(b, (vs.len() - 1) as nat) > 0, vs.last() >= 0;
    }
}
pub proof fn code_pos(vs: Seq<usize>, b: int)
    requires b >= 1, vs.len() > 0,
    ensures code(vs, b) > 0,
{
    code_front(vs, b);
    code_nonneg(vs.drop_first(), b);
    let c = code(vs.drop_first(), b);
    assert(b * c >= 0) by (nonlinear_arith) requires b >= 1, c >= 0;
}
/// partial sums are below the whole, and every term is
pub proof fn code_term(vs: Seq<usize>, n: int, i: int)
    requires n >= 0, all_below(vs, n), 0 <= i < vs.len(),
    ensures 0 < pow(n + 1, i as nat) * (vs[i] + 1) <= code(vs, n + 1),
    decreases vs.len(),
{
    let b = n + 1;
    let k = (vs.len() - 1) as nat;
    lemma_pow_positive(b, k);
    assert(pow(b, k) * (vs.last() + 1) > 0) by (nonlinear_arith) requires pow(b, k) > 0, vs.last() >= 0;
    if i == vs.len() - 1 { code_nonneg(vs.drop_last(), b); } else { code_term(vs.drop_last(), n, i); assert(vs.drop_last()[i] == vs[i]); }
}
/// a code in a machine word has at most 64 digits
pub proof fn code_len(vs: Seq<usize>, n: int)
    requires n >= 0, all_below(vs, n), code(vs, n + 1) <= usize::MAX,
    ensures vs.len() <= 64,
{
    if vs.len() > 64 {
        assert(0 <= vs[0] < n);
        code_term(vs, n, 64);
        assert(pow(n + 1, 64) >= pow(2, 64)) by { pow_base_mono(2, n + 1, 64); }
        assert(pow(2, 64) == 0x1_0000_0000_0000_0000) by { lemma_pow2_64(); }
        let p = pow(n + 1, 64); let q = vs[64] + 1;
        assert(p * q >= p) by (nonlinear_arith) requires p > 0, q >= 1;
    }
}
pub proof fn pow_base_mono(a: int, b: int, e: nat)
    requires 1 <= a <= b,
    ensures 1 <= pow(a, e) <= pow(b, e),
    decreases e,
{
    reveal(pow);
    if e > 0 {
        pow_base_mono(a, b, (e - 1) as nat);
        let x = pow(a, (e - 1) as nat); let y = pow(b, (e - 1) as nat);
        assert(1 <= a * x <= b * y) by (nonlinear_arith) requires 1 <= a <= b, 1 <= x <= y;
    } else { lemma_pow0(a); lemma_pow0(b); }
}
pub proof fn lemma_pow2_64()
    ensures pow(2, 64) == 0x1_0000_0000_0000_0000,
{
    assert(pow(2, 1) == 2) by { lemma_pow1(2); }
    lemma_pow_adds(2, 1, 1);
    assert(pow(2, 2) == 4);
    lemma_pow_adds(2, 2, 2);
    assert(pow(2, 4) == 16);
    lemma_pow_adds(2, 4, 4);
    assert(pow(2, 8) == 256);
    lemma_pow_adds(2, 8, 8);
    assert(pow(2, 16) == 65536);
    lemma_pow_adds(2, 16, 16);
    assert(pow(2, 32) == 4294967296);
    lemma_pow_adds(2, 32, 32);
    assert(pow(2, 64) == 18446744073709551616);
}
/// the code is the sum of its terms
pub proof fn code_total(vs: Seq<usize>, b: int)
    ensures forall|ts: Seq<usize>| #[trigger] total(ts) == code(vs, b) || !(ts.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> #[trigger] ts[i] == pow(b, i as nat) * (vs[i] + 1)),
    decreases vs.len(),
{
    assert forall|ts: Seq<usize>| ts.len() == vs.len() && (forall|i: int| 0 <= i < vs.len() ==> #[trigger] ts[i] == pow(b, i as nat) * (vs[i] + 1)) implies #[trigger] total(ts) == code(vs, b) by {
        if vs.len() > 0 {
            code_total(vs.drop_last(), b);
            let t = ts.drop_last();
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == pow(b, i as nat) * (vs.drop_last()[i] + 1) by { assert(t[i] == ts[i]); assert(vs.drop_last()[i] == vs[i]); }
            assert(total(t) == code(vs.drop_last(), b));
            assert(ts[vs.len() - 1] == ts.last());
        }
    }
}
/// a copied list has the same code
pub proof fn code_seq_eq(vs: Seq<usize>, b: int)
    ensures forall|c: Seq<usize>| #![trigger code(c, b)] c.len() == vs.len() && (forall|i: int| 0 <= i < vs.len() ==> #[trigger] c[i] == vs[i]) ==> c == vs,
{
    assert forall|c: Seq<usize>| #![trigger code(c, b)] c.len() == vs.len() && (forall|i: int| 0 <= i < vs.len() ==> #[trigger] c[i] == vs[i]) implies c == vs by { assert(c =~= vs); }
}
/// codes are injective
pub proof fn code_inj(vs: Seq<usize>, ws: Seq<usize>, n: int)
    requires n >= 0, all_below(vs, n), all_below(ws, n), code(vs, n + 1) == code(ws, n + 1),
    ensures vs == ws,
    decreases vs.len(),
{
    let b = n + 1;
    if vs.len() == 0 || ws.len() == 0 {
        if vs.len() > 0 { code_pos(vs, b); }
        if ws.len() > 0 { code_pos(ws, b); }
        assert(vs =~= ws);
    } else {
        code_front(vs, b); code_front(ws, b);
        let (v, w) = (vs.drop_first(), ws.drop_first());
        code_nonneg(v, b); code_nonneg(w, b);
        assert(0 <= vs[0] < n && 0 <= ws[0] < n);
        let c = code(vs, b);
        lemma_fundamental_div_mod_converse(c, b, code(v, b), vs[0] + 1);
        lemma_fundamental_div_mod_converse(c, b, code(w, b), ws[0] + 1);
        assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] v[i] < n by { assert(v[i] == vs[i + 1]); }
        assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] w[i] < n by { assert(w[i] == ws[i + 1]); }
        code_inj(v, w, n);
        assert(vs =~= seq![vs[0]] + v);
        assert(ws =~= seq![ws[0]] + w);
    }
}
pub proof fn verts_code(vs: Seq<usize>, n: usize)
    requires all_below(vs, n as int), n < usize::MAX, code(vs, n + 1) <= usize::MAX,
    ensures is_code(code(vs, n + 1) as usize, n), verts(code(vs, n + 1) as usize, n) == vs,
{
    code_nonneg(vs, n + 1);
    let c = code(vs, n + 1) as usize;
    assert(code(vs, n + 1) == c);
    let ws = verts(c, n);
    assert(all_below(ws, n as int) && code(ws, n + 1) == c);
    code_inj(ws, vs, n as int);
}

/// removing a vertex lowers the code
pub proof fn code_remove_le(vs: Seq<usize>, n: int, i: int)
    requires n >= 0, all_below(vs, n), 0 <= i < vs.len(),
    ensures 0 <= code(vs.remove(i), n + 1) <= code(vs, n + 1), all_below(vs.remove(i), n),
    decreases vs.len(),
{
    let b = n + 1;
    let w = vs.remove(i);
    assert forall|k: int| 0 <= k < w.len() implies 0 <= #[trigger] w[k] < n by { if k < i { assert(w[k] == vs[k]); } else { assert(w[k] == vs[k + 1]); } }
    code_nonneg(w, b);
    code_front(vs, b);
    let r = vs.drop_first();
    code_nonneg(r, b);
    if i == 0 {
        assert(w =~= r);
        let c = code(r, b);
        assert(b * c >= c) by (nonlinear_arith) requires b >= 1, c >= 0;
    } else {
        assert forall|k: int| 0 <= k < r.len() implies 0 <= #[trigger] r[k] < n by { assert(r[k] == vs[k + 1]); }
        code_remove_le(r, n, i - 1);
        code_front(w, b);
        assert(w.drop_first() =~= r.remove(i - 1));
        let c = code(r, b); let d = code(r.remove(i - 1), b);
        assert(b * d <= b * c) by (nonlinear_arith) requires b >= 1, d <= c;
    }
}
/// keeping every item but the `i`th
pub proof fn select_but<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures forall|keep: Seq<bool>| #![trigger select(s, keep)] keep.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] keep[k] == (k != i)) ==> select(s, keep) == s.remove(i),
    decreases s.len(),
{
    assert forall|keep: Seq<bool>| #![trigger select(s, keep)] keep.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] keep[k] == (k != i)) implies select(s, keep) == s.remove(i) by {
        let t = s.drop_last(); let q = keep.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] q[k] == (k != i) by { assert(q[k] == keep[k]); }
        assert(keep[s.len() - 1] == (s.len() - 1 != i));
        if i == s.len() - 1 { select_all(t); assert(select(t, q) == t); assert(s.remove(i) =~= t); }
        else { select_but(t, i); assert(select(t, q) == t.remove(i)); assert(s.remove(i) =~= t.remove(i).push(s.last())); }
    }
}
pub proof fn select_all<T>(s: Seq<T>)
    ensures forall|keep: Seq<bool>| #![trigger select(s, keep)] keep.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] keep[k]) ==> select(s, keep) == s,
    decreases s.len(),
{
    assert forall|keep: Seq<bool>| #![trigger select(s, keep)] keep.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] keep[k]) implies select(s, keep) == s by {
        if s.len() > 0 {
            let t = s.drop_last(); let q = keep.drop_last();
            assert forall|k: int| 0 <= k < t.len() implies #[trigger] q[k] by { assert(q[k] == keep[k]); }
            select_all(t);
            assert(keep[s.len() - 1]);
            assert(select(t, q) == t);
            assert(s =~= t.push(s.last()));
        } else { assert(select(s, keep) =~= s); }
    }
}
/// results that are all present, or all absent
pub proof fn somes_all<B>()
    ensures
        forall|res: Seq<Option<B>>| #![trigger somes(res)] (forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]) is Some) ==> somes(res) == Seq::new(res.len(), |i: int| res[i]->0),
        forall|res: Seq<Option<B>>| #![trigger somes(res)] (forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]) is None) ==> somes(res) == Seq::<B>::empty(),
{
    assert forall|res: Seq<Option<B>>| #![trigger somes(res)] (forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]) is Some) implies somes(res) == Seq::new(res.len(), |i: int| res[i]->0) by { somes_present(res); }
    assert forall|res: Seq<Option<B>>| #![trigger somes(res)] (forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]) is None) implies somes(res) == Seq::<B>::empty() by { somes_absent(res); }
}
pub proof fn somes_present<B>(res: Seq<Option<B>>)
    requires forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]) is Some,
    ensures somes(res) == Seq::new(res.len(), |i: int| res[i]->0),
    decreases res.len(),
{
    if res.len() > 0 { let q = res.drop_last(); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Some by { assert(q[i] == res[i]); } somes_present(q); assert(res[res.len() - 1] is Some); }
    assert(somes(res) =~= Seq::new(res.len(), |i: int| res[i]->0));
}
pub proof fn somes_absent<B>(res: Seq<Option<B>>)
    requires forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]) is None,
    ensures somes(res) == Seq::<B>::empty(),
    decreases res.len(),
{
    if res.len() > 0 { let q = res.drop_last(); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is None by { assert(q[i] == res[i]); } somes_absent(q); assert(res[res.len() - 1] is None); }
}

} // verus!
