@@file phlite_rips/src/lib.rs rips
@@use
use crate::prelude::*;
use crate::ints::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use crate::fields::*;
use crate::columns::*;
use crate::matrices::*;
use crate::adaptors::*;
use crate::simplices::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use vstd::arithmetic::power::*;
@@inside <RipsIndex as BasisElement>
    proof fn lawful_elem() { ripsindex_lawful(); }

@@fn RipsIndex::to_vec
@ret r
@spec
    requires n_points < usize::MAX, is_code(self.0, n_points),
    ensures r@ == verts(self.0, n_points), all_below(r@, n_points as int), code(r@, n_points + 1) == self.0,
@start
    let ghost vs = verts(self.0, n_points);
    proof { assert(vs.skip(0) =~= vs); }
@loop 0
    invariant
        n_points < usize::MAX, all_below(vs, n_points as int), vec@.len() <= vs.len(),
        vec@ =~= vs.take(vec@.len() as int),
        working == code(vs.skip(vec@.len() as int), n_points + 1),
    decreases working,
@loopstart 0
    proof {
        let k = vec@.len() as int;
        assert(k < vs.len()) by { if k == vs.len() { assert(vs.skip(k) =~= Seq::<usize>::empty()); } }
        let ws = vs.skip(k);
        code_front(ws, n_points + 1);
        assert(ws.drop_first() =~= vs.skip(k + 1));
        assert(ws[0] == vs[k]);
        let b = n_points + 1;
        let q = code(vs.skip(k + 1), b);
        assert(b * q == q * b) by (nonlinear_arith);
        code_nonneg(vs.skip(k + 1), b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(working as int, b, q, vs[k] + 1);
        assert(working == b * q + (vs[k] + 1));
        assert(q < working) by (nonlinear_arith) requires working == b * q + (vs[k] + 1), b >= 2, q >= 0, vs[k] >= 0;
        assert(vs.take(k).push(vs[k]) =~= vs.take(k + 1));
    }
@after loop#0
    proof {
        let k = vec@.len() as int;
        if k < vs.len() { code_pos(vs.skip(k), n_points + 1); }
        assert(vs.take(vs.len() as int) =~= vs);
    }
@@fn RipsIndex::from_indices
@ret r
@spec
    requires n_points < usize::MAX, all_below(indices@, n_points as int), code(indices@, n_points + 1) <= usize::MAX,
    ensures
        indices@.len() == 0 ==> r is None,
        indices@.len() > 0 ==> r == Some(RipsIndex(code(indices@, n_points + 1) as usize)),
@start
    let ghost vs = indices@;
    let ghost b = n_points + 1;
    proof { code_len(vs, n_points as int); }
@closureparam 0 vpa0_0: (usize, usize)
@closure 0 r: usize
    requires n_points < usize::MAX, vpa0_0.0 < 64, vpa0_0.1 < n_points,
        0 <= pow(n_points + 1, vpa0_0.0 as nat) * (vpa0_0.1 + 1) <= usize::MAX,
    ensures r == pow(n_points + 1, vpa0_0.0 as nat) * (vpa0_0.1 + 1)
@closurestart 0
    proof {
        let q = pow(n_points + 1, vpa0_0.0 as nat);
        lemma_pow_positive(n_points + 1, vpa0_0.0 as nat);
        assert(q <= q * (vpa0_0.1 + 1)) by (nonlinear_arith) requires q > 0, vpa0_0.1 >= 0;
    }
@before enumerate
    proof {
        assert forall|i: int| 0 <= i < vs.len() implies 0 <= pow(b, i as nat) * (#[trigger] vs[i] + 1) <= usize::MAX by { code_term(vs, n_points as int, i); }
        code_total(vs, b);
        if vs.len() > 0 { code_pos(vs, b); }
    }
@@fn RipsIndex::dimension
@ret r
@spec
    requires n_points < usize::MAX, is_code(self.0, n_points), self.0 != 0,
    ensures r == verts(self.0, n_points).len() - 1,
@start
    proof { if verts(self.0, n_points).len() == 0 { assert(code(verts(self.0, n_points), n_points + 1) == 0); } }

@@inside <SingleDimRipsBasisWithFilt as ColBasis>
    open spec fn b_seq(&self) -> Seq<RipsIndex> { self.0@.map_values(|e: (NotNan<f64>, RipsIndex)| e.1) }
@@fn <SingleDimRipsBasisWithFilt as ColBasis>::element
@@fn <SingleDimRipsBasisWithFilt as ColBasis>::size
@@inside <MultiDimRipsBasisWithFilt as ColBasis>
    open spec fn b_seq(&self) -> Seq<RipsIndex> { flat(bases_of(self.0@)) }
@@fn <MultiDimRipsBasisWithFilt as ColBasis>::element
@start
    let ghost bs = bases_of(self.0@);
    proof { assert(self.0@.len() == self.0.len()); assert(bs.take(0) =~= Seq::empty()); if bs.len() == 0 { assert(flat(bs).len() == 0); } }
@loop 0
    invariant
        dim < self.0@.len() <= usize::MAX, bs == bases_of(self.0@),
        index < flat(bs).len(),
        index == flat(bs.take(dim as int)).len() + working,
    decreases self.0@.len() - dim,
@loopstart 0
    proof {
        flat_at(bs, dim as int);
        if dim + 1 == bs.len() { assert(bs.take(dim + 1) =~= bs); }
    }
@after loop#0
    proof { flat_at(bs, dim as int); }
@@fn <MultiDimRipsBasisWithFilt as ColBasis>::size
@start
    proof { axiom_basis_in_memory(*self); flat_total(bases_of(self.0@)); }
@closure 0 r: usize
    ensures r == basis.b_seq().len()
@@inside <MultiDimRipsBasisWithFilt as SplitByDimension>
    open spec fn b_dims(&self) -> nat { self.0@.len() }
    open spec fn b_sub(&self, d: int) -> SingleDimRipsBasisWithFilt { self.0@[d] }
@@fn <MultiDimRipsBasisWithFilt as SplitByDimension>::in_dimension

@@fn add_cofacets
@spec
    requires
        rips_ok(distances@, max_dim), old(bases)@.len() == max_dim + 1,
        simplex_on(old(simplex_as_vec)@, distances@.len() as int), old(simplex_as_vec)@.len() > 0,
        fil_value == diam(old(simplex_as_vec)@, distances@),
    ensures
        final(simplex_as_vec)@ == old(simplex_as_vec)@, final(bases)@.len() == max_dim + 1,
        forall|d: int| 0 <= d <= max_dim ==> (#[trigger] final(bases)@[d]).0@ == old(bases)@[d].0@ + listed(ext_from(old(simplex_as_vec)@, old(simplex_as_vec)@.last() + 1, distances@.len() as int, d), distances@),
    decreases max_dim + 1 - old(simplex_as_vec)@.len(),
@start
    let ghost vs = simplex_as_vec@;
    let ghost n = distances@.len() as int;
    let ghost b0 = bases@;
    proof {
        axiom_notnan_lawful::<NotNan<f64>>(); vmax_comm::<NotNan<f64>>();
        assert forall|d: int| 0 <= d <= max_dim && (vs.last() + 1 >= n || vs.len() > max_dim) implies (#[trigger] b0[d]).0@ == b0[d].0@ + listed(ext_from(vs, vs.last() + 1, n, d), distances@) by {
            assert(listed(ext_from(vs, vs.last() + 1, n, d), distances@) =~= Seq::empty());
            assert(b0[d].0@ =~= b0[d].0@ + Seq::empty());
        }
    }
@loop 0
    invariant
        rips_ok(distances@, max_dim), bases@.len() == max_dim + 1, n == distances@.len(), vs.len() <= max_dim,
        simplex_on(vs, n), vs.len() > 0, simplex_as_vec@ == vs, vs == old(simplex_as_vec)@, fil_value == diam(vs, distances@),
        n_vertices == n, new_dimension == vs.len(),
        vpit0.seq().len() == n - (vs.last() + 1),
        forall|i: int| 0 <= i < vpit0.seq().len() ==> #[trigger] vpit0.seq()[i] == vs.last() + 1 + i,
        forall|d: int| 0 <= d <= max_dim ==> (#[trigger] bases@[d]).0@ + listed(ext_from(vs, vs.last() + 1 + vpit0.index@, n, d), distances@) == b0[d].0@ + listed(ext_from(vs, vs.last() + 1, n, d), distances@),
@closure 0 r: NotNan<f64>
    requires *w < distances@.len(), v < distances@.len(), dist_ok(distances@)
    ensures r == dv(distances@, *w, v)
@before max#0
    proof { max_seq_eq(vs, v, distances@); }
@loopstart 0
    let ghost b1 = bases@;
    let ghost vn = vs.push(v);
    proof {
        axiom_notnan_lawful::<NotNan<f64>>(); vmax_comm::<NotNan<f64>>(); lawful_cmp::<NotNan<f64>>();
        assert(vn.drop_last() =~= vs);
        assert(simplex_on(vn, n)) by { assert forall|i: int, j: int| 0 <= i < j < vn.len() implies vn[i] < vn[j] by { if j == vs.len() { assert(vs[i] <= vs.last()); } } }
        assert(code(vn, n + 1) <= usize::MAX);
        code_seq_eq(vn, n + 1);
    }
@loopend 0
    proof {
        assert forall|d: int| 0 <= d <= max_dim implies (#[trigger] bases@[d]).0@ + listed(ext_from(vs, v + 1, n, d), distances@) == b0[d].0@ + listed(ext_from(vs, vs.last() + 1, n, d), distances@) by {
            let head = ext_from(vn, v + 1, n, d);
            let rest = ext_from(vs, v + 1, n, d);
            assert(b1[d].0@ + listed(ext_from(vs, v as int, n, d), distances@) == b0[d].0@ + listed(ext_from(vs, vs.last() + 1, n, d), distances@));
            if d == vs.len() {
                assert(head =~= Seq::empty());
                assert(listed(seq![vn] + rest, distances@) =~= seq![entry(vn, distances@)] + listed(rest, distances@));
                assert(bases@[d].0@ =~= b1[d].0@.push(entry(vn, distances@)));
                assert(bases@[d].0@ + listed(rest, distances@) =~= b1[d].0@ + (seq![entry(vn, distances@)] + listed(rest, distances@)));
            } else if d > vs.len() {
                assert(listed(head + rest, distances@) =~= listed(head, distances@) + listed(rest, distances@));
                assert(bases@[d].0@ =~= b1[d].0@ + listed(head, distances@));
                assert(bases@[d].0@ + listed(rest, distances@) =~= b1[d].0@ + (listed(head, distances@) + listed(rest, distances@)));
            } else {
                assert(ext_from(vs, v as int, n, d) =~= rest);
                assert(bases@[d].0@ =~= b1[d].0@);
            }
        }
    }
@@fn build_rips_bases
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
    requires rips_ok(distances@, max_dim),
    ensures
        r.0@.len() == max_dim + 1,
        forall|d: int| 0 <= d <= max_dim ==> basis_ok(#[trigger] r.0@[d], d, distances@),
@start
    let ghost n = distances@.len() as int;
    let ghost e0 = Seq::<usize>::empty();
    proof { axiom_notnan_lawful::<NotNan<f64>>(); ripsindex_lawful(); lawful_cmp::<NotNan<f64>>(); lawful_cmp::<RipsIndex>(); }
@loop 0
    invariant
        rips_ok(distances@, max_dim), bases@.len() == max_dim + 1, n == distances@.len(), e0 == Seq::<usize>::empty(),
        vpit0.seq().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] vpit0.seq()[i] == i, n_points == n,
        forall|d: int| 0 <= d <= max_dim ==> (#[trigger] bases@[d]).0@ + listed(ext_from(e0, vpit0.index@, n, d), distances@) == listed(ext_from(e0, 0, n, d), distances@),
@loopstart 0
    let ghost b1 = bases@;
    let ghost vn = e0.push(v);
    proof {
        assert(vn =~= seq![v]);
        assert(simplex_on(vn, n));
        assert(code(vn, n + 1) <= usize::MAX);
    }
@loopend 0
    proof {
        assert forall|d: int| 0 <= d <= max_dim implies (#[trigger] bases@[d]).0@ + listed(ext_from(e0, v + 1, n, d), distances@) == listed(ext_from(e0, 0, n, d), distances@) by {
            let head = ext_from(vn, v + 1, n, d);
            let rest = ext_from(e0, v + 1, n, d);
            assert(b1[d].0@ + listed(ext_from(e0, v as int, n, d), distances@) == listed(ext_from(e0, 0, n, d), distances@));
            if d == 0 {
                assert(head =~= Seq::empty());
                assert(listed(seq![vn] + rest, distances@) =~= seq![entry(vn, distances@)] + listed(rest, distances@));
                assert(bases@[d].0@ =~= b1[d].0@.push(entry(vn, distances@)));
                assert(bases@[d].0@ + listed(rest, distances@) =~= b1[d].0@ + (seq![entry(vn, distances@)] + listed(rest, distances@)));
            } else {
                assert(listed(head + rest, distances@) =~= listed(head, distances@) + listed(rest, distances@));
                assert(bases@[d].0@ =~= b1[d].0@ + listed(head, distances@));
                assert(bases@[d].0@ + listed(rest, distances@) =~= b1[d].0@ + (listed(head, distances@) + listed(rest, distances@)));
            }
        }
    }
@before loop#0
    proof {
        assert forall|d: int| 0 <= d <= max_dim implies (#[trigger] bases@[d]).0@ + listed(ext_from(e0, 0, n, d), distances@) == listed(ext_from(e0, 0, n, d), distances@) by {
            assert(bases@[d].0@ =~= Seq::empty());
            assert(bases@[d].0@ + listed(ext_from(e0, 0, n, d), distances@) =~= listed(ext_from(e0, 0, n, d), distances@));
        }
    }
@after loop#0
    proof {
        assert forall|d: int| 0 <= d <= max_dim implies (#[trigger] bases@[d]).0@ == listed(ext_from(e0, 0, n, d), distances@) by {
            assert(listed(ext_from(e0, n, n, d), distances@) =~= Seq::empty());
            assert(bases@[d].0@ =~= bases@[d].0@ + Seq::empty());
        }
    }
@loop 1
    invariant
        vp_i <= bases@.len(), bases@.len() == max_dim + 1,
        forall|d: int| vp_i <= d <= max_dim ==> (#[trigger] bases@[d]).0@ == listed(ext_from(e0, 0, n, d), distances@),
        forall|d: int| 0 <= d < vp_i ==> basis_ok(#[trigger] bases@[d], d, distances@),
    decreases bases@.len() - vp_i,
@loopend 1
    proof { lemma_basis_ok(bases@[vp_i - 1], vp_i - 1, distances@, max_dim); }

@@fn max_pairwise_distance
@ret r
@spec
    requires square(distances@), all_below(vertices@, distances@.len() as int), vertices@.len() > 0,
    ensures is_maxpair(r, vertices@, distances@),
@start
    proof { axiom_notnan_lawful::<NotNan<f64>>(); lawful_cmp::<NotNan<f64>>(); assert(vertices@.len() == vertices.len()); pairs_flat(vertices@.len() as int); max_of_pairs(vertices@, distances@); }
@closureparam 0 i: usize
@closure 0 r: It<(usize, usize)>
    ensures pair_row(r@, i, n_vertices as int)
@closureparam 1 j: usize
@closure 1 r: (usize, usize)
    ensures r == (i, j)
@closureparam 2 vpa2_0: (usize, usize)
@closure 2 r: NotNan<f64>
    requires vpa2_0.0 < vertices@.len(), vpa2_0.1 < vertices@.len(), square(distances@), all_below(vertices@, distances@.len() as int)
    ensures r == dv(distances@, vertices@[vpa2_0.0 as int], vertices@[vpa2_0.1 as int])

@@append
/// the greatest distance between any two of the vertices
pub open spec fn is_maxpair(m: NotNan<f64>, vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>) -> bool {
    &&& exists|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() && #[trigger] dv(ds, vs[i], vs[j]) == m
    &&& forall|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() ==> leq(#[trigger] dv(ds, vs[i], vs[j]), m)
}
pub open spec fn pair_row(s: Seq<(usize, usize)>, i: usize, n: int) -> bool { s.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] s[j] == (i, j as usize) }
pub open spec fn all_pairs(s: Seq<(usize, usize)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < n && s[k].1 < n
    &&& forall|i: usize, j: usize| i < n && j < n ==> #[trigger] s.contains((i, j))
}
pub proof fn pairs_flat(n: int)
    requires 0 <= n <= usize::MAX,
    ensures forall|parts: Seq<Seq<(usize, usize)>>| #![trigger flat(parts)] parts.len() == n && (forall|i: int| 0 <= i < n ==> pair_row(#[trigger] parts[i], i as usize, n)) ==> all_pairs(flat(parts), n) && (n > 0 ==> flat(parts).len() > 0),
{
    assert forall|parts: Seq<Seq<(usize, usize)>>| #![trigger flat(parts)] parts.len() == n && (forall|i: int| 0 <= i < n ==> pair_row(#[trigger] parts[i], i as usize, n)) implies all_pairs(flat(parts), n) && (n > 0 ==> flat(parts).len() > 0) by {
        flat_all(parts, |x: (usize, usize)| x.0 < n && x.1 < n);
        assert forall|i: usize, j: usize| i < n && j < n implies #[trigger] flat(parts).contains((i, j)) by {
            flat_at(parts, i as int);
            assert(pair_row(parts[i as int], i, n));
            assert(parts[i as int][j as int] == (i, j));
            assert(flat(parts)[flat(parts.take(i as int)).len() + j] == (i, j));
        }
        if n > 0 { assert(flat(parts).contains((0, 0))); }
    }
}
pub open spec fn pair_dists(ps: Seq<(usize, usize)>, s: Seq<NotNan<f64>>, vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>) -> bool {
    s.len() == ps.len() && forall|k: int| 0 <= k < ps.len() ==> #[trigger] s[k] == dv(ds, vs[ps[k].0 as int], vs[ps[k].1 as int])
}
pub open spec fn from_pairs(s: Seq<NotNan<f64>>, vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>) -> bool { exists|ps: Seq<(usize, usize)>| #[trigger] all_pairs(ps, vs.len() as int) && pair_dists(ps, s, vs, ds) }
pub proof fn max_of_pairs(vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>)
    requires vs.len() > 0, vs.len() <= usize::MAX,
    ensures forall|s: Seq<NotNan<f64>>| from_pairs(s, vs, ds) ==> is_maxpair(#[trigger] maxof(s), vs, ds),
{
    assert forall|s: Seq<NotNan<f64>>| from_pairs(s, vs, ds) implies is_maxpair(#[trigger] maxof(s), vs, ds) by {
        let ps = choose|ps: Seq<(usize, usize)>| #[trigger] all_pairs(ps, vs.len() as int) && pair_dists(ps, s, vs, ds);
        max_of_pairs1(ps, s, vs, ds);
    }
}
pub proof fn max_of_pairs1(ps: Seq<(usize, usize)>, s: Seq<NotNan<f64>>, vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>)
    requires vs.len() > 0, vs.len() <= usize::MAX, all_pairs(ps, vs.len() as int), pair_dists(ps, s, vs, ds),
    ensures s.len() > 0 && is_maxpair(maxof(s), vs, ds),
{
    assert(ps.contains((0, 0)));
    axiom_notnan_lawful::<NotNan<f64>>();
    maxof_is(s);
    let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == maxof(s);
    assert(dv(ds, vs[ps[k].0 as int], vs[ps[k].1 as int]) == maxof(s));
    assert forall|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() implies leq(#[trigger] dv(ds, vs[i], vs[j]), maxof(s)) by {
        assert(ps.contains((i as usize, j as usize)));
        let k = choose|k: int| 0 <= k < ps.len() && ps[k] == (i as usize, j as usize);
        assert(s[k] == dv(ds, vs[i], vs[j]));
    }
}
pub open spec fn dv(ds: Seq<Vec<NotNan<f64>>>, i: usize, j: usize) -> NotNan<f64> { ds[i as int]@[j as int] }
pub open spec fn square(ds: Seq<Vec<NotNan<f64>>>) -> bool { forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i])@.len() == ds.len() }
/// symmetric, zero on the diagonal, non-negative
pub open spec fn dist_ok(ds: Seq<Vec<NotNan<f64>>>) -> bool {
    &&& square(ds)
    &&& forall|i: usize, j: usize| i < ds.len() && j < ds.len() ==> #[trigger] dv(ds, i, j) == dv(ds, j, i)
    &&& forall|i: usize| i < ds.len() ==> #[trigger] dv(ds, i, i) == nn(f64_zero())
    &&& forall|i: usize, j: usize| i < ds.len() && j < ds.len() ==> leq(nn(f64_zero()), #[trigger] dv(ds, i, j))
}
/// a strictly increasing vertex list
pub open spec fn simplex_on(vs: Seq<usize>, n: int) -> bool { all_below(vs, n) && forall|i: int, j: int| 0 <= i < j < vs.len() ==> vs[i] < vs[j] }
/// the distances from `vs` to `v`
pub open spec fn dists_to(vs: Seq<usize>, v: usize, ds: Seq<Vec<NotNan<f64>>>) -> Seq<NotNan<f64>> { Seq::new(vs.len(), |i: int| dv(ds, vs[i], v)) }
/// diameter, adding one vertex after the other
pub open spec fn diam(vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>) -> NotNan<f64>
    decreases vs.len(),
{ if vs.len() <= 1 { nn(f64_zero()) } else { vmax(maxof(dists_to(vs.drop_last(), vs.last(), ds)), diam(vs.drop_last(), ds)) } }
/// distances are a square table and every simplex of the requested dimensions has an index
pub open spec fn rips_ok(ds: Seq<Vec<NotNan<f64>>>, max_dim: usize) -> bool {
    &&& dist_ok(ds) && ds.len() < usize::MAX && max_dim < usize::MAX
    &&& forall|vs: Seq<usize>| simplex_on(vs, ds.len() as int) && vs.len() <= max_dim + 1 ==> #[trigger] code(vs, ds.len() as int + 1) <= usize::MAX
}
pub open spec fn entry(vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>) -> (NotNan<f64>, RipsIndex) { (diam(vs, ds), RipsIndex(code(vs, ds.len() as int + 1) as usize)) }
pub open spec fn listed(ls: Seq<Seq<usize>>, ds: Seq<Vec<NotNan<f64>>>) -> Seq<(NotNan<f64>, RipsIndex)> { Seq::new(ls.len(), |i: int| entry(ls[i], ds)) }
/// the lists of `d + 1` vertices that extend `vs` by vertices from `v0` on, in order
pub open spec fn ext_from(vs: Seq<usize>, v0: int, n: int, d: int) -> Seq<Seq<usize>>
    decreases d + 1 - vs.len(), n - v0,
{
    if d < vs.len() || v0 >= n { Seq::empty() }
    else { (if d == vs.len() { seq![vs.push(v0 as usize)] } else { ext_from(vs.push(v0 as usize), v0 + 1, n, d) }) + ext_from(vs, v0 + 1, n, d) }
}
/// what the distances to `v` collected in order are
pub proof fn max_seq_eq(vs: Seq<usize>, v: usize, ds: Seq<Vec<NotNan<f64>>>)
    ensures forall|s: Seq<NotNan<f64>>| #![trigger maxof(s)] s.len() == vs.len() && (forall|i: int| 0 <= i < vs.len() ==> #[trigger] s[i] == dv(ds, vs[i], v)) ==> maxof(s) == maxof(dists_to(vs, v, ds)),
{
    assert forall|s: Seq<NotNan<f64>>| #![trigger maxof(s)] s.len() == vs.len() && (forall|i: int| 0 <= i < vs.len() ==> #[trigger] s[i] == dv(ds, vs[i], v)) implies maxof(s) == maxof(dists_to(vs, v, ds)) by {
        assert(s =~= dists_to(vs, v, ds));
    }
}
pub proof fn vmax_comm<T: Ord + Clone>()
    requires lawful::<T>(),
    ensures forall|a: T, b: T| #[trigger] vmax(a, b) == vmax(b, a),
{
    reveal(lawful);
    assert forall|a: T, b: T| #[trigger] vmax(a, b) == vmax(b, a) by { leq_total(a, b); if leq(a, b) && leq(b, a) { leq_antisym(a, b); } }
}
pub open spec fn is_entry(e: (NotNan<f64>, RipsIndex), d: int, ds: Seq<Vec<NotNan<f64>>>) -> bool { exists|vs: Seq<usize>| #[trigger] simplex_on(vs, ds.len() as int) && vs.len() == d + 1 && e == entry(vs, ds) }
/// every simplex on `d + 1` vertices once, with its diameter, in order
pub open spec fn basis_ok(b: SingleDimRipsBasisWithFilt, d: int, ds: Seq<Vec<NotNan<f64>>>) -> bool {
    &&& sorted2(b.0@)
    &&& b.b_seq().no_duplicates()
    &&& forall|vs: Seq<usize>| #[trigger] simplex_on(vs, ds.len() as int) && vs.len() == d + 1 ==> b.0@.contains(entry(vs, ds))
    &&& forall|i: int| 0 <= i < b.0@.len() ==> is_entry(#[trigger] b.0@[i], d, ds)
}

impl Clone for SingleDimRipsBasisWithFilt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { SingleDimRipsBasisWithFilt(self.0.clone()) } }
/// a basis that exists in memory has fewer entries than there are addresses
pub axiom fn axiom_basis_in_memory(b: MultiDimRipsBasisWithFilt)
    ensures flat(bases_of(b.0@)).len() <= usize::MAX;
pub open spec fn bases_of(s: Seq<SingleDimRipsBasisWithFilt>) -> Seq<Seq<RipsIndex>> { s.map_values(|b: SingleDimRipsBasisWithFilt| b.b_seq()) }
// derived traits of RipsIndex (lexicographic on the single field)
impl PartialEqSpecImpl for RipsIndex {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl PartialEq for RipsIndex { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for RipsIndex {}
impl PartialOrdSpecImpl for RipsIndex {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { PartialOrdSpec::partial_cmp_spec(&self.0, &o.0) }
}
impl PartialOrd for RipsIndex { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.0.partial_cmp(&o.0) } }
impl OrdSpecImpl for RipsIndex {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { OrdSpec::cmp_spec(&self.0, &o.0) }
}
impl Ord for RipsIndex { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
impl Clone for RipsIndex { fn clone(&self) -> (r: Self) ensures r == *self, { RipsIndex(self.0) } }
impl Copy for RipsIndex {}
pub proof fn ripsindex_lawful()
    ensures lawful::<RipsIndex>(),
{
    reveal(lawful);
    assert forall|a: RipsIndex, b: RipsIndex| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == Ordering::Equal <==> a == b by { assert(a.0 == b.0 <==> a == b); }
}

/// what `ext_from` lists
#[verifier::rlimit(60)]
pub proof fn ext_from_lists(vs: Seq<usize>, v0: int, n: int, d: int)
    requires simplex_on(vs, n), 0 <= v0, n <= usize::MAX, vs.len() == 0 || vs.last() < v0,
    ensures
        forall|i: int| 0 <= i < ext_from(vs, v0, n, d).len() ==> extends(#[trigger] ext_from(vs, v0, n, d)[i], vs, v0, n, d),
        forall|w: Seq<usize>| #[trigger] extends(w, vs, v0, n, d) ==> ext_from(vs, v0, n, d).contains(w),
        ext_from(vs, v0, n, d).no_duplicates(),
    decreases d + 1 - vs.len(), n - v0,
{
    let r = ext_from(vs, v0, n, d);
    let k = vs.len() as int;
    if d < k || v0 >= n {
        assert forall|w: Seq<usize>| #[trigger] extends(w, vs, v0, n, d) implies r.contains(w) by { if d >= k { assert(w[k] < n); } }
    } else {
        let vn = vs.push(v0 as usize);
        assert(simplex_on(vn, n)) by { assert forall|i: int, j: int| 0 <= i < j < vn.len() implies vn[i] < vn[j] by { if j == vs.len() { assert(vs[i] <= vs.last()); } } }
        let head = if d == k { seq![vn] } else { ext_from(vn, v0 + 1, n, d) };
        let rest = ext_from(vs, v0 + 1, n, d);
        ext_from_lists(vs, v0 + 1, n, d);
        if d > k { ext_from_lists(vn, v0 + 1, n, d); }
        assert(vn.take(k) =~= vs);
        assert forall|i: int| 0 <= i < head.len() implies extends(#[trigger] head[i], vs, v0, n, d) && head[i][k] == v0 by {
            if d > k {
                let w = head[i];
                assert(extends(w, vn, v0 + 1, n, d));
                assert(w.take(k) =~= w.take(k + 1).take(k));
                assert(w.take(k + 1)[k] == v0);
            }
        }
        assert forall|i: int| 0 <= i < rest.len() implies extends(#[trigger] rest[i], vs, v0, n, d) && rest[i][k] > v0 by { assert(extends(rest[i], vs, v0 + 1, n, d)); }
        assert(r == head + rest);
        assert forall|i: int| 0 <= i < r.len() implies extends(#[trigger] r[i], vs, v0, n, d) by {
            if i < head.len() { assert(r[i] == head[i]); } else { assert(r[i] == rest[i - head.len()]); }
        }
        assert forall|w: Seq<usize>| #[trigger] extends(w, vs, v0, n, d) implies r.contains(w) by {
            if w[k] == v0 {
                assert(w.take(k + 1) =~= vn) by { assert(w.take(k) == vs); assert forall|i: int| 0 <= i < k + 1 implies w.take(k + 1)[i] == vn[i] by { if i < k { assert(w.take(k)[i] == vs[i]); } } }
                if d == k { assert(w =~= vn); assert(head[0] == w); assert(r[0] == w); }
                else {
                    assert(w[k] < w[k + 1]);
                    assert(extends(w, vn, v0 + 1, n, d));
                    let i = choose|i: int| 0 <= i < head.len() && head[i] == w;
                    assert(r[i] == w);
                }
            } else {
                assert(extends(w, vs, v0 + 1, n, d));
                let i = choose|i: int| 0 <= i < rest.len() && rest[i] == w;
                assert(r[i + head.len()] == w);
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
            if j < head.len() { assert(head[i] != head[j]); }
            else if i >= head.len() { assert(rest[i - head.len()] != rest[j - head.len()]); }
            else { assert(head[i][k] == v0 && rest[j - head.len()][k] > v0); }
        }
    }
}
/// `w` is a simplex on `d + 1` vertices starting with `vs` and going on from `v0`
pub open spec fn extends(w: Seq<usize>, vs: Seq<usize>, v0: int, n: int, d: int) -> bool {
    &&& simplex_on(w, n) && w.len() == d + 1 && vs.len() <= w.len() && w.take(vs.len() as int) == vs
    &&& w.len() > vs.len() ==> w[vs.len() as int] >= v0
    &&& d >= vs.len()
}
pub proof fn lemma_basis_ok(b: SingleDimRipsBasisWithFilt, d: int, ds: Seq<Vec<NotNan<f64>>>, max_dim: usize)
    requires
        rips_ok(ds, max_dim), 0 <= d <= max_dim, sorted2(b.0@),
        b.0@.to_multiset() == listed(ext_from(Seq::empty(), 0, ds.len() as int, d), ds).to_multiset(),
    ensures basis_ok(b, d, ds),
{
    let n = ds.len() as int;
    let ls = ext_from(Seq::empty(), 0, n, d);
    let es = listed(ls, ds);
    ext_from_lists(Seq::empty(), 0, n, d);
    b.0@.to_multiset_ensures();
    es.to_multiset_ensures();
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies es[i].1 != es[j].1 by {
        assert(ls[i] != ls[j]);
        assert(extends(ls[i], Seq::empty(), 0, n, d) && extends(ls[j], Seq::empty(), 0, n, d));
        assert(code(ls[i], n + 1) <= usize::MAX && code(ls[j], n + 1) <= usize::MAX);
        code_nonneg(ls[i], n + 1); code_nonneg(ls[j], n + 1);
        if es[i].1 == es[j].1 { code_inj(ls[i], ls[j], n); }
    }
    assert forall|vs: Seq<usize>| #[trigger] simplex_on(vs, n) && vs.len() == d + 1 implies b.0@.contains(entry(vs, ds)) by {
        assert(vs.take(0) =~= Seq::<usize>::empty());
        assert(extends(vs, Seq::empty(), 0, n, d));
        let i = choose|i: int| 0 <= i < ls.len() && ls[i] == vs;
        assert(es[i] == entry(vs, ds));
        assert(es.to_multiset().count(es[i]) > 0);
        assert(b.0@.to_multiset().count(es[i]) > 0);
    }
    assert forall|i: int| 0 <= i < b.0@.len() implies is_entry(#[trigger] b.0@[i], d, ds) by {
        let e = b.0@[i];
        assert(b.0@.to_multiset().count(e) > 0);
        assert(es.contains(e));
        let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
        assert(extends(ls[j], Seq::empty(), 0, n, d));
        assert(simplex_on(ls[j], n) && ls[j].len() == d + 1 && e == entry(ls[j], ds));
    }
    // distinct indices
    multiset_keys(es, b.0@);
    assert(b.b_seq().no_duplicates());
}
/// a rearrangement of entries with distinct indices has distinct indices
pub proof fn multiset_keys(a: Seq<(NotNan<f64>, RipsIndex)>, b: Seq<(NotNan<f64>, RipsIndex)>)
    requires a.to_multiset() == b.to_multiset(), forall|i: int, j: int| 0 <= i < j < a.len() ==> a[i].1 != a[j].1,
    ensures forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i].1 != b[j].1,
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.no_duplicates());
    a.lemma_multiset_has_no_duplicates();
    assert forall|x: (NotNan<f64>, RipsIndex)| b.to_multiset().contains(x) implies b.to_multiset().count(x) == 1 by {}
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i].1 != b[j].1 by {
        let x = b[i]; let y = b[j];
        assert(b.to_multiset().count(x) > 0 && b.to_multiset().count(y) > 0);
        assert(a.contains(x) && a.contains(y));
        let p = choose|p: int| 0 <= p < a.len() && a[p] == x;
        let q = choose|q: int| 0 <= q < a.len() && a[q] == y;
        assert(x != y);
        if p < q { assert(a[p].1 != a[q].1); } else { assert(a[q].1 != a[p].1); }
    }
}

/// the inductive diameter is the greatest pairwise distance
pub proof fn diam_is_max(vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>)
    requires dist_ok(ds), all_below(vs, ds.len() as int), vs.len() > 0,
    ensures is_maxpair(diam(vs, ds), vs, ds), leq(nn(f64_zero()), diam(vs, ds)),
    decreases vs.len(),
{
    axiom_notnan_lawful::<NotNan<f64>>();
    let m = diam(vs, ds);
    if vs.len() == 1 {
        assert(dv(ds, vs[0], vs[0]) == m);
        leq_refl(m);
    } else {
        let ws = vs.drop_last(); let v = vs.last();
        let s = dists_to(ws, v, ds);
        assert(all_below(ws, ds.len() as int)) by { assert forall|i: int| 0 <= i < ws.len() implies 0 <= #[trigger] ws[i] < ds.len() by { assert(ws[i] == vs[i]); } }
        diam_is_max(ws, ds);
        maxof_is(s);
        let (a, b) = (maxof(s), diam(ws, ds));
        leq_total(a, b); leq_refl(a); leq_refl(b);
        assert(leq(a, m) && leq(b, m));
        leq_trans(nn(f64_zero()), b, m);
        let n = vs.len() - 1;
        assert(0 <= vs[n] < ds.len());
        assert forall|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() implies leq(#[trigger] dv(ds, vs[i], vs[j]), m) by {
            assert(0 <= vs[i] < ds.len() && 0 <= vs[j] < ds.len());
            if i < n && j < n { assert(ws[i] == vs[i] && ws[j] == vs[j]); assert(leq(dv(ds, ws[i], ws[j]), b)); leq_trans(dv(ds, ws[i], ws[j]), b, m); }
            else if i < n { assert(s[i] == dv(ds, ws[i], v)); leq_trans(s[i], a, m); }
            else if j < n { assert(s[j] == dv(ds, ws[j], v)); assert(dv(ds, v, ws[j]) == dv(ds, ws[j], v)); leq_trans(s[j], a, m); }
            else { assert(dv(ds, v, v) == nn(f64_zero())); }
        }
        if m == a {
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == a;
            assert(s[k] == dv(ds, ws[k], v));
            assert(dv(ds, vs[k], vs[n]) == m);
        } else {
            let (i, j) = choose|i: int, j: int| 0 <= i < ws.len() && 0 <= j < ws.len() && #[trigger] dv(ds, ws[i], ws[j]) == b;
            assert(dv(ds, vs[i], vs[j]) == m);
        }
    }
}
pub proof fn maxpair_unique(m: NotNan<f64>, k: NotNan<f64>, vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>)
    requires is_maxpair(m, vs, ds), is_maxpair(k, vs, ds),
    ensures m == k,
{
    axiom_notnan_lawful::<NotNan<f64>>();
    leq_antisym(m, k);
}
/// fewer vertices, no greater diameter
pub proof fn diam_mono(ws: Seq<usize>, vs: Seq<usize>, ds: Seq<Vec<NotNan<f64>>>)
    requires dist_ok(ds), all_below(vs, ds.len() as int), ws.len() > 0, forall|i: int| 0 <= i < ws.len() ==> vs.contains(#[trigger] ws[i]),
    ensures leq(diam(ws, ds), diam(vs, ds)),
{
    assert(vs.contains(ws[0]));
    assert forall|i: int| 0 <= i < ws.len() implies 0 <= #[trigger] ws[i] < ds.len() by { assert(vs.contains(ws[i])); let k = vs.index_of(ws[i]); assert(vs[k] == ws[i]); }
    diam_is_max(ws, ds); diam_is_max(vs, ds);
    let m = diam(ws, ds);
    let (i, j) = choose|i: int, j: int| 0 <= i < ws.len() && 0 <= j < ws.len() && #[trigger] dv(ds, ws[i], ws[j]) == m;
    assert(vs.contains(ws[i]) && vs.contains(ws[j]));
    let (p, q) = (vs.index_of(ws[i]), vs.index_of(ws[j]));
    assert(leq(dv(ds, vs[p], vs[q]), diam(vs, ds)));
}
