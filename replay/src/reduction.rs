//! C06, C07, C08: reductions against dense arithmetic and known barcodes.
use crate::matrix::{Base, Multi};
use crate::util::*;
use crate::{ck, ckeq};
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

/// matrices over any index type, given by dense columns
pub struct Sq<const P: u64, T: BasisElement, F> {
    cols: BTreeMap<T, Vec<(TF<P>, T)>>,
    fil: BTreeMap<T, F>,
}
impl<const P: u64, T: BasisElement, F> MatrixOracle for Sq<P, T, F> {
    type CoefficientField = TF<P>;
    type ColT = T;
    type RowT = T;
    fn column(&self, col: T) -> impl Iterator<Item = (TF<P>, T)> {
        self.cols[&col].clone().into_iter()
    }
}
impl<const P: u64, T: BasisElement, F: FiltrationValue> HasRowFiltration for Sq<P, T, F> {
    type FiltrationT = F;
    fn filtration_value(&self, row: T) -> F {
        self.fil[&row].clone()
    }
}

fn low<const P: u64, T: Ord + Clone, F: Ord>(l: &Lin<T>, f: impl Fn(&T) -> F) -> Option<T> {
    l.keys().max_by(|a, b| (f(a), *a).cmp(&(f(b), *b))).cloned()
}
fn mul<T: Ord + Clone>(d: &BTreeMap<T, Lin<T>>, v: &Lin<T>, p: u64) -> Lin<T> {
    let mut l = Lin::new();
    for (r, c) in v {
        if let Some(x) = d.get(r) {
            lin_axpy(&mut l, *c, x, p);
        }
    }
    l
}
pub fn rank(mut rows: Vec<Vec<u64>>, p: u64) -> usize {
    let n = rows.len();
    let m = rows.first().map_or(0, |r| r.len());
    let mut k = 0;
    for c in 0..m {
        let Some(i) = (k..n).find(|i| rows[*i][c] != 0) else { continue };
        rows.swap(i, k);
        let iv = if p == 2 { 1 } else { inv_mod(rows[k][c], p) };
        for j in k + 1..n {
            let q = rows[j][c] * iv % p;
            if q != 0 {
                for t in 0..m {
                    rows[j][t] = (rows[j][t] + (p - q) * rows[k][t]) % p;
                }
            }
        }
        k += 1;
    }
    k
}

/// V against D: unitriangular, distinct pivots of DV. Returns the pivots.
#[allow(clippy::too_many_arguments)]
fn check_v<const P: u64, T: BasisElement + Debug + Hash, F: Ord>(
    d: &BTreeMap<T, Lin<T>>,
    basis: &[T],
    f: impl Fn(&T) -> F,
    v: &StandardReductionMatrix<TF<P>, T>,
    what: &str,
) -> Result<BTreeMap<T, T>, String> {
    ckeq!(v.columns.len(), basis.len(), "number of columns of V: {what}");
    let mut low_of: BTreeMap<T, T> = BTreeMap::new();
    for (i, b) in basis.iter().enumerate() {
        ck!(v.columns.contains_key(b), "V has no column for {b:?}: {what}");
        let c = lin(v.column(b.clone()));
        ckeq!(c.get(b).copied(), Some(1), "coefficient of V[{b:?}] at itself: {what}");
        for r in c.keys() {
            ck!(basis[..=i].contains(r), "V[{b:?}] has a term in {r:?}, not earlier in the basis {basis:?}: {what}");
        }
        let r = mul(d, &c, P);
        if let Some(l) = low::<P, T, F>(&r, &f) {
            if let Some(o) = low_of.insert(l.clone(), b.clone()) {
                return Err(format!("columns {o:?} and {b:?} of R=DV share the pivot {l:?}: {what}"));
            }
        }
    }
    Ok(low_of)
}

fn c06_any<const P: u64>(r: &mut Rng, size: usize) -> Res {
    let n = 1 + r.below(if size == LARGE { 60 } else { 2 + size.min(9) });
    let extra = r.below(3);
    let fil = Rc::new((0..n + extra).map(|_| r.below(4)).collect::<Vec<_>>());
    let dens = 1 + r.below(n + 1);
    // rows outside the basis are possible; the matrix is square in the sense of its index type
    let cols: Vec<Vec<(TF<P>, usize)>> = (0..n + extra)
        .map(|_| {
            let k = r.below(dens + 1);
            let mut c: Vec<_> = (0..k).map(|_| (TF::rand(r), r.below(n + extra))).collect();
            if k > 0 && r.chance(1, 3) {
                let (x, y) = c[0];
                c.push((x.additive_inverse(), y));
            }
            c
        })
        .collect();
    let basis: Vec<usize> = r.perm(n + extra).into_iter().take(n).collect();
    let what = format!("P={P} D columns {:?}, filtration {fil:?}, basis {basis:?}", cols.iter().map(|c| c.iter().map(|t| (t.0.v(), t.1)).collect::<Vec<_>>()).collect::<Vec<_>>());
    let d: BTreeMap<usize, Lin<usize>> = cols.iter().cloned().map(lin).enumerate().collect();
    let base = Base { cols, fil: fil.clone() };
    let m = (&base).with_basis(basis.clone());
    let v = standard_algo(&m);
    check_v(&d, &basis, |x| fil[*x], &v, &what)?;
    // R through the library
    for b in &basis {
        ckeq!(lin(product(&m, &v).column(*b)), mul(&d, &lin(v.column(*b)), P), "column {b} of product(D,V): {what}");
    }
    let busy = basis.iter().any(|b| lin(v.column(*b)).len() > 1);
    Ok(Info { key: busy.then(|| hash_str(&what)), sample: what })
}
pub fn c06(r: &mut Rng, case: u64, size: usize) -> Res {
    let p = r.below(5);
    if case % 2 == 0 {
        match p {
            0 => c06_any::<2>(r, size),
            1 => c06_any::<3>(r, size),
            2 => c06_any::<5>(r, size),
            3 => c06_any::<13>(r, size),
            _ => c06_any::<101>(r, size),
        }
    } else {
        match p {
            0 => complex_case::<2>(r, size, What::Std),
            1 => complex_case::<3>(r, size, What::Std),
            2 => complex_case::<7>(r, size, What::Std),
            _ => complex_case::<101>(r, size, What::Std),
        }
    }
}
pub fn c07(r: &mut Rng, case: u64, size: usize) -> Res {
    if case % 3 == 2 {
        return match r.below(3) {
            0 => readoff::<2>(r, size),
            1 => readoff::<5>(r, size),
            _ => readoff::<101>(r, size),
        };
    }
    match r.below(4) {
        0 => complex_case::<2>(r, size, What::Diag),
        1 => complex_case::<3>(r, size, What::Diag),
        2 => complex_case::<7>(r, size, What::Diag),
        _ => complex_case::<101>(r, size, What::Diag),
    }
}
pub fn c08(r: &mut Rng, _case: u64, size: usize) -> Res {
    match r.below(4) {
        0 => complex_case::<2>(r, size, What::Clear),
        1 => complex_case::<3>(r, size, What::Clear),
        2 => complex_case::<7>(r, size, What::Clear),
        _ => complex_case::<101>(r, size, What::Clear),
    }
}

/// The diagram of arbitrary (non-complex) strictly triangular matrices.
fn readoff<const P: u64>(r: &mut Rng, size: usize) -> Res {
    let n = 1 + r.below(if size == LARGE { 120 } else { 2 + size.min(8) });
    // rows before columns in the basis order, so that forward reading applies
    let names = r.perm(n);
    let fil: Vec<usize> = {
        let mut f = vec![0; n];
        let mut t = 0;
        for i in 0..n {
            t += r.below(2);
            f[names[i]] = t;
        }
        f
    };
    let cols: Vec<Vec<(TF<P>, usize)>> = {
        let mut c = vec![vec![]; n];
        for i in 1..n {
            for _ in 0..r.below(i + 1) {
                c[names[i]].push((TF::rand(r), names[r.below(i)]));
            }
        }
        c
    };
    let fil = Rc::new(fil);
    let d: BTreeMap<usize, Lin<usize>> = cols.iter().cloned().map(lin).enumerate().collect();
    let what = format!("P={P} D columns {:?}, filtration {fil:?}, basis {names:?}", cols.iter().map(|c| c.iter().map(|t| (t.0.v(), t.1)).collect::<Vec<_>>()).collect::<Vec<_>>());
    let base = Base { cols, fil: fil.clone() };
    let m = (&base).with_basis(names.clone());
    let (v, dg) = standard_algo_with_diagram(&m, false);
    expect_diagram(&d, &names, |x| fil[*x], &v, &dg, &what)?;
    let dg = read_off_diagram(&m, &v, false);
    expect_diagram(&d, &names, |x| fil[*x], &v, &dg, &what)?;
    Ok(Info { key: (!dg.pairings.is_empty()).then(|| hash_str(&what)), sample: what })
}
fn expect_diagram<const P: u64, T: BasisElement + Debug + Hash, F: Ord>(
    d: &BTreeMap<T, Lin<T>>,
    basis: &[T],
    f: impl Fn(&T) -> F,
    v: &StandardReductionMatrix<TF<P>, T>,
    dg: &Diagram<T>,
    what: &str,
) -> Result<(), String> {
    let mut pairs: BTreeSet<(T, T)> = BTreeSet::new();
    let mut ess: BTreeSet<T> = BTreeSet::new();
    for b in basis {
        match low::<P, T, F>(&mul(d, &lin(v.column(b.clone())), P), &f) {
            Some(l) => {
                pairs.insert((l, b.clone()));
            }
            None => {
                ess.insert(b.clone());
            }
        }
    }
    for (l, _) in &pairs {
        ess.remove(l);
    }
    ckeq!(dg.pairings.iter().cloned().collect::<BTreeSet<_>>(), pairs, "pairings read off: {what}");
    ckeq!(dg.essential.iter().cloned().collect::<BTreeSet<_>>(), ess, "essential classes read off: {what}");
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Std,
    Diag,
    Clear,
}

/// A filtered complex with known barcode: a canonical one conjugated by matrices that are
/// unitriangular in the filtration order of each dimension.
struct Cx {
    dims: Vec<usize>,
    top: usize,
    fil: Vec<usize>,
    /// (birth, death), by element
    pairs: Vec<(usize, usize)>,
    ess: Vec<usize>,
    /// boundary, by element
    d: BTreeMap<usize, Lin<usize>>,
    /// elements of each dimension in (filtration, element) order
    by_dim: Vec<Vec<usize>>,
}
fn complex<const P: u64>(r: &mut Rng, size: usize) -> Cx {
    let n = 1 + r.below(if size == LARGE { 300 } else { 3 + size.min(12) });
    let top = r.below(4);
    let dims: Vec<usize> = (0..n).map(|_| r.below(top + 1)).collect();
    let mut fil = vec![0usize; n];
    let spread = 1 + r.below(n + 2);
    // pairs of consecutive dimensions, the birth earlier in (filtration, element) order
    let mut pairs = vec![];
    let mut used = vec![false; n];
    for f in fil.iter_mut() {
        *f = r.below(spread);
    }
    let key = |fil: &Vec<usize>, x: usize| (fil[x], x);
    for x in r.perm(n) {
        if used[x] || r.chance(1, 6) {
            continue;
        }
        let c: Vec<usize> = (0..n).filter(|y| !used[*y] && dims[*y] == dims[x] + 1 && key(&fil, x) < key(&fil, *y)).collect();
        if let Some(y) = c.get(r.below(c.len())).copied() {
            used[x] = true;
            used[y] = true;
            pairs.push((x, y));
        }
    }
    let ess: Vec<usize> = (0..n).filter(|x| !used[*x]).collect();
    let mut d: BTreeMap<usize, Lin<usize>> = (0..n).map(|x| (x, Lin::new())).collect();
    for (b, k) in &pairs {
        d.get_mut(k).unwrap().insert(*b, TF::<P>::rand(r).v());
    }
    // elementary base changes e_j := e_j + c e_i with i before j in the same dimension:
    // column j gains c * column i, row i loses c * row j
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|x| key(&fil, *x));
    for _ in 0..r.below(3 * n + 1) {
        let (i, j) = (r.below(n), r.below(n));
        if dims[i] != dims[j] || key(&fil, i) >= key(&fil, j) {
            continue;
        }
        let c = TF::<P>::rand(r).v();
        let ci = d[&i].clone();
        lin_axpy(d.get_mut(&j).unwrap(), c, &ci, P);
        for (_, col) in d.iter_mut() {
            if let Some(x) = col.get(&j).copied() {
                lin_add(col, &i, (P - c) * x % P, P);
            }
        }
    }
    let by_dim = (0..=top).map(|k| order.iter().cloned().filter(|x| dims[*x] == k).collect()).collect();
    Cx { dims, top, fil, pairs, ess, d, by_dim }
}
impl Cx {
    fn show(&self, p: u64) -> String {
        format!("P={p} dims {:?}, filtration {:?}, boundary {:?}", self.dims, self.fil, self.d)
    }
    fn transposed(&self) -> BTreeMap<usize, Lin<usize>> {
        let mut t: BTreeMap<usize, Lin<usize>> = self.d.keys().map(|k| (*k, Lin::new())).collect();
        for (c, col) in &self.d {
            for (r, x) in col {
                t.get_mut(r).unwrap().insert(*c, *x);
            }
        }
        t
    }
}
fn cols_of<const P: u64>(r: &mut Rng, d: &BTreeMap<usize, Lin<usize>>) -> BTreeMap<usize, Vec<(TF<P>, usize)>> {
    d.iter()
        .map(|(k, l)| {
            let mut v: Vec<_> = l.iter().map(|(r, x)| (TF::new(*x).unwrap(), *r)).collect();
            if !v.is_empty() && r.chance(1, 3) {
                // an unconsolidated presentation
                let x = TF::rand(r);
                let y = v[r.below(v.len())].1;
                v.push((x, y));
                v.insert(0, (TF::new(P - x.v()).unwrap(), y));
            }
            (*k, v)
        })
        .collect()
}

fn complex_case<const P: u64>(r: &mut Rng, size: usize, w: What) -> Res {
    let cx = complex::<P>(r, size);
    let what = cx.show(P);
    let fil: BTreeMap<usize, usize> = cx.fil.iter().cloned().enumerate().collect();
    let f = |x: &usize| cx.fil[*x];
    let multi = Multi(cx.by_dim.clone());
    let flat: Vec<usize> = cx.by_dim.iter().flatten().cloned().collect();
    let mut tot: Vec<usize> = flat.clone();
    tot.sort_by_key(|x| (cx.fil[*x], *x));
    let bd = Sq::<P, usize, usize> { cols: cols_of::<P>(r, &cx.d), fil: fil.clone() };
    let co_d = cx.transposed();
    let co = Sq::<P, usize, usize> { cols: cols_of::<P>(r, &co_d), fil };
    let rev_d: BTreeMap<Reverse<usize>, Lin<Reverse<usize>>> = co_d.iter().map(|(k, l)| (Reverse(*k), l.iter().map(|(r, x)| (Reverse(*r), *x)).collect())).collect();
    let rf = |x: &Reverse<usize>| Reverse(cx.fil[x.0]);
    let revd = |v: &[usize]| -> Vec<Reverse<usize>> { v.iter().rev().map(|x| Reverse(*x)).collect() };
    let all_pairs: BTreeSet<(usize, usize)> = cx.pairs.iter().cloned().collect();
    let all_ess: BTreeSet<usize> = cx.ess.iter().cloned().collect();
    if w != What::Clear {
        // boundary, basis flattened by dimension or totally ordered
        for (basis, n) in [(flat.clone(), "by dimension"), (tot.clone(), "by filtration")] {
            let m = (&bd).with_basis(basis.clone());
            let (v, dg) = standard_algo_with_diagram(&m, false);
            let wh = format!("boundary, basis {n}: {what}");
            check_v(&cx.d, &basis, f, &v, &wh)?;
            if w == What::Diag {
                expect_diagram(&cx.d, &basis, f, &v, &dg, &wh)?;
                ckeq!(dg.pairings.iter().cloned().collect::<BTreeSet<_>>(), all_pairs, "pairings: {wh}");
                ckeq!(dg.essential.iter().cloned().collect::<BTreeSet<_>>(), all_ess, "essential classes: {wh}");
            }
        }
        // coboundary: reversed matrix read forward when the basis is flattened by dimension and
        // then reversed; a basis in increasing dimension is read in reverse order
        {
            let m = (&co).with_basis(multi.clone()).reverse();
            let (v, dg) = standard_algo_with_diagram(&m, false);
            let wh = format!("reversed coboundary: {what}");
            let basis = revd(&flat);
            check_v(&rev_d, &basis, rf, &v, &wh)?;
            if w == What::Diag {
                expect_diagram(&rev_d, &basis, rf, &v, &dg, &wh)?;
                ckeq!(dg.pairings.iter().map(|(a, b)| (b.0, a.0)).collect::<BTreeSet<_>>(), all_pairs, "pairings: {wh}");
                ckeq!(dg.essential.iter().map(|a| a.0).collect::<BTreeSet<_>>(), all_ess, "essential classes: {wh}");
            }
        }
        {
            let basis: Vec<Reverse<usize>> = cx.by_dim.iter().flat_map(|b| revd(b)).collect();
            let m = (&co).reverse().with_basis(basis.clone());
            let (v, dg) = standard_algo_with_diagram(&m, true);
            let wh = format!("coboundary in increasing dimension, read in reverse: {what}");
            check_v(&rev_d, &basis, rf, &v, &wh)?;
            if w == What::Diag {
                expect_diagram(&rev_d, &basis, rf, &v, &dg, &wh)?;
                ckeq!(dg.pairings.iter().map(|(a, b)| (b.0, a.0)).collect::<BTreeSet<_>>(), all_pairs, "pairings: {wh}");
                ckeq!(dg.essential.iter().map(|a| a.0).collect::<BTreeSet<_>>(), all_ess, "essential classes: {wh}");
            }
        }
    } else {
        let lo = r.below(cx.top + 1);
        let hi = lo + r.below(cx.top + 1 - lo);
        let within = |x: usize| cx.dims[x] >= lo && cx.dims[x] <= hi;
        // boundary, decreasing dimensions
        {
            let wh = format!("clearing the boundary in dimensions {lo}..={hi} (decreasing): {what}");
            let m = (&bd).with_basis(multi.clone());
            let (v, dg) = ClearedReductionMatrix::build_with_diagram(&m, (lo..=hi).rev());
            let pairs: BTreeSet<_> = cx.pairs.iter().filter(|p| within(p.1)).cloned().collect();
            let dead: BTreeSet<_> = pairs.iter().map(|p| p.0).collect();
            let killers: BTreeSet<_> = cx.pairs.iter().map(|p| p.1).collect();
            let ess: BTreeSet<_> = (0..cx.dims.len()).filter(|x| within(*x) && !killers.contains(x) && !dead.contains(x)).collect();
            ckeq!(dg.pairings.iter().cloned().collect::<BTreeSet<_>>(), pairs, "pairings: {wh}");
            ckeq!(dg.essential.iter().cloned().collect::<BTreeSet<_>>(), ess, "essential classes: {wh}");
            let proc: Vec<usize> = flat.iter().cloned().filter(|x| within(*x)).collect();
            check_clear(&cx.d, &proc, f, |c| lin(v.column(c)), |c| v.col_is_cycle(c), |c| cx.pairs.iter().any(|p| p.0 == *c && within(p.1)), P, &wh)?;
            // the standard algorithm on the same columns
            let ms = (&bd).with_basis(flat.iter().cloned().filter(|x| within(*x)).collect::<Vec<_>>());
            let (_, ds) = standard_algo_with_diagram(&ms, false);
            ckeq!(dg.pairings, ds.pairings, "pairings against the standard algorithm: {wh}");
            ckeq!(dg.essential, ds.essential, "essential classes against the standard algorithm: {wh}");
        }
        // coboundary reversed, increasing dimensions
        {
            let wh = format!("clearing the reversed coboundary in dimensions {lo}..={hi} (increasing): {what}");
            let m = (&co).with_basis(multi.clone()).reverse();
            let (v, dg) = ClearedReductionMatrix::build_with_diagram(&m, lo..=hi);
            let pairs: BTreeSet<_> = cx.pairs.iter().filter(|p| within(p.0)).map(|p| (Reverse(p.1), Reverse(p.0))).collect();
            let dead: BTreeSet<_> = pairs.iter().map(|p| p.0 .0).collect();
            let killers: BTreeSet<_> = cx.pairs.iter().map(|p| p.0).collect();
            let ess: BTreeSet<_> = (0..cx.dims.len()).filter(|x| within(*x) && !killers.contains(x) && !dead.contains(x)).map(Reverse).collect();
            ckeq!(dg.pairings.iter().cloned().collect::<BTreeSet<_>>(), pairs, "pairings: {wh}");
            ckeq!(dg.essential.iter().cloned().collect::<BTreeSet<_>>(), ess, "essential classes: {wh}");
            let proc: Vec<Reverse<usize>> = revd(&flat).into_iter().filter(|x| within(x.0)).collect();
            check_clear(&rev_d, &proc, rf, |c| lin(v.column(c)), |c| v.col_is_cycle(c), |c| cx.pairs.iter().any(|p| p.1 == c.0 && within(p.0)), P, &wh)?;
        }
    }
    Ok(Info { key: (!cx.pairs.is_empty()).then(|| hash_str(&what)), sample: what })
}
#[allow(clippy::too_many_arguments)]
fn check_clear<T: BasisElement + Debug, F: Ord>(
    d: &BTreeMap<T, Lin<T>>,
    proc: &[T],
    f: impl Fn(&T) -> F,
    v: impl Fn(T) -> Lin<T>,
    cyc: impl Fn(T) -> bool,
    cleared: impl Fn(&T) -> bool,
    p: u64,
    what: &str,
) -> Result<(), String> {
    let ix: BTreeMap<T, usize> = proc.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    let mut rows = vec![];
    let mut low_of: BTreeMap<T, T> = BTreeMap::new();
    for b in proc {
        let c = v(b.clone());
        let mut row = vec![0; proc.len()];
        for (r, x) in &c {
            let Some(i) = ix.get(r) else { return Err(format!("V[{b:?}] has a term in the unprocessed {r:?}: {what}")) };
            row[*i] = *x;
        }
        rows.push(row);
        let r = mul(d, &c, p);
        ckeq!(cyc(b.clone()), r.is_empty(), "cycle query on {b:?}: {what}");
        if cleared(b) {
            ck!(r.is_empty(), "column {b:?} is the pivot of another and not a cycle: {what}");
        }
        if let Some(l) = low::<2, T, F>(&r, &f) {
            if let Some(o) = low_of.insert(l.clone(), b.clone()) {
                return Err(format!("columns {o:?} and {b:?} of R=DV share the pivot {l:?}: {what}"));
            }
        }
    }
    ckeq!(rank(rows, p), proc.len(), "rank of V: {what}");
    Ok(())
}
