//! C04, C05, C09: random nestings of combinators and adaptors against dense linear algebra.
use crate::util::*;
use crate::{ck, ckeq};
use phlite::columns::ColumnEntry;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::adaptors::*;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use rustc_hash::FxHashMap;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

/// A square matrix on 0..n with a filtration, given by its (unconsolidated) columns.
#[derive(Clone, Debug)]
pub struct Base<const P: u64> {
    pub cols: Vec<Vec<(TF<P>, usize)>>,
    pub fil: Rc<Vec<usize>>,
}
impl<const P: u64> MatrixOracle for Base<P> {
    type CoefficientField = TF<P>;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (TF<P>, usize)> {
        self.cols[col].clone().into_iter()
    }
}
impl<const P: u64> HasRowFiltration for Base<P> {
    type FiltrationT = usize;
    fn filtration_value(&self, row: usize) -> usize {
        self.fil[row]
    }
}

/// A nesting of the library's combinators and adaptors; all matrices are square on 0..n.
#[derive(Debug)]
pub enum Ex<const P: u64> {
    Base(Base<P>),
    Prod(Box<Ex<P>>, Box<Ex<P>>),
    Sum(Box<Ex<P>>, Box<Ex<P>>),
    Cons(Box<Ex<P>>),
    Cache(WithCachedCols<Own<P>>),
    /// (A reversed * B reversed) unreversed
    RevProd(Box<Ex<P>>, Box<Ex<P>>),
    RevRev(Box<Ex<P>>),
    Rev2(Box<Ex<P>>),
    Index(Box<Ex<P>>, Vec<usize>),
    Sub(Box<Ex<P>>, Multi, usize),
    Basis(Box<Ex<P>>, Vec<usize>),
    Func(Box<Ex<P>>),
    Ptr(Box<Ex<P>>, u8),
    /// the filtration dropped and re-attached
    Refil(Box<Ex<P>>),
}
use Ex::*;
type Col<const P: u64> = Vec<(TF<P>, usize)>;
type FCol<const P: u64> = Vec<ColumnEntry<usize, usize, TF<P>>>;

#[derive(Clone, Debug)]
pub struct Multi(pub Vec<Vec<usize>>);
impl ColBasis for Multi {
    type ElemT = usize;
    fn element(&self, i: usize) -> usize {
        *self.0.iter().flatten().nth(i).unwrap()
    }
    fn size(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
}
impl SplitByDimension for Multi {
    type SubBasisT = Vec<usize>;
    fn in_dimension(&self, d: usize) -> &Vec<usize> {
        &self.0[d]
    }
}

impl<const P: u64> Ex<P> {
    fn fil(&self) -> Rc<Vec<usize>> {
        match self {
            Base(b) => b.fil.clone(),
            Prod(a, _) | Sum(a, _) | Cons(a) | RevProd(a, _) | RevRev(a) | Rev2(a) | Index(a, _) | Sub(a, _, _) | Basis(a, _) | Func(a) | Ptr(a, _) | Refil(a) => a.fil(),
            Cache(a) => a.oracle.0.fil(),
        }
    }
    pub fn col(&self, c: usize) -> Col<P> {
        match self {
            Base(b) => b.column(c).collect(),
            Prod(a, b) => product(&**a, &**b).column(c).collect(),
            Sum(a, b) => sum(&**a, &**b).column(c).collect(),
            Cons(a) => (&**a).consolidate().column(c).collect(),
            Cache(a) => a.column(c).collect(),
            RevProd(a, b) => {
                let p = product((&**a).reverse(), (&**b).reverse());
                MatrixOracle::unreverse(p).column(c).collect()
            }
            RevRev(a) => {
                let m = MatrixOracle::reverse((&**a).reverse());
                m.column(Reverse(Reverse(c))).map(|(x, r)| (x, r.0 .0)).collect()
            }
            Rev2(a) => MatrixOracle::unreverse((&**a).reverse()).column(c).collect::<Vec<_>>(),
            Index(a, p) => (&**a).with_basis(p.clone()).using_col_basis_index().column(c).collect(),
            Sub(a, m, d) => (&**a).with_basis(m.clone()).sub_matrix_in_dimension(*d).column(c).collect(),
            Basis(a, p) => MatrixWithBasis::new(&**a, p.clone()).column(c).collect(),
            Func(a) => {
                let f = self.fil();
                (&**a).with_filtration(move |r| f[r]).column(c).collect()
            }
            Ptr(a, k) => match k {
                0 => MatrixOracle::column(&Box::new(&**a), c).collect(),
                1 => MatrixOracle::column(&Rc::new(&**a), c).collect(),
                2 => MatrixOracle::column(&Arc::new(&**a), c).collect(),
                _ => MatrixOracle::column(&&&**a, c).collect(),
            },
            Refil(a) => {
                let f = self.fil();
                let x = (&**a).with_trivial_filtration().with_filtration(move |r| f[r]);
                let y = x.column(c).collect();
                let z: Col<P> = x.discard_filtration().column(c).collect();
                assert_eq!(y, z, "discarding the filtration changes the column");
                y
            }
        }
    }
    pub fn fcol(&self, c: usize) -> FCol<P> {
        match self {
            Base(b) => b.column_with_filtration(c).collect(),
            Prod(a, b) => product(&**a, &**b).column_with_filtration(c).collect(),
            Sum(a, b) => {
                let f = self.fil();
                sum(&**a, &**b).with_filtration(move |r| f[r]).column_with_filtration(c).collect()
            }
            Cons(a) => (&**a).consolidate().column_with_filtration(c).collect(),
            Cache(a) => a.column_with_filtration(c).collect(),
            RevProd(a, b) => {
                let p = product((&**a).reverse(), (&**b).reverse());
                MatrixOracle::unreverse(p).column_with_filtration(c).collect()
            }
            RevRev(a) => {
                let m = MatrixOracle::reverse((&**a).reverse());
                m.column_with_filtration(Reverse(Reverse(c)))
                    .map(|e| ColumnEntry { coeff: e.coeff, row_index: e.row_index.0 .0, filtration_value: e.filtration_value.0 .0 })
                    .collect()
            }
            Rev2(a) => MatrixOracle::unreverse((&**a).reverse()).column_with_filtration(c).collect::<Vec<_>>(),
            Index(a, p) => (&**a).with_basis(p.clone()).using_col_basis_index().column_with_filtration(c).collect(),
            Sub(a, m, d) => (&**a).with_basis(m.clone()).sub_matrix_in_dimension(*d).column_with_filtration(c).collect(),
            Basis(a, p) => MatrixWithBasis::new(&**a, p.clone()).column_with_filtration(c).collect(),
            Func(a) | Refil(a) => {
                let f = self.fil();
                (&**a).with_filtration(move |r| f[r]).column_with_filtration(c).collect()
            }
            Ptr(a, _) => (&&**a).column_with_filtration(c).collect(),
        }
    }
    pub fn fv(&self, r: usize) -> usize {
        match self {
            Base(b) => b.filtration_value(r),
            Prod(a, b) => product(&**a, &**b).filtration_value(r),
            Cons(a) => (&**a).consolidate().filtration_value(r),
            Cache(a) => a.filtration_value(r),
            RevProd(a, b) => MatrixOracle::unreverse(product((&**a).reverse(), (&**b).reverse())).filtration_value(r),
            RevRev(a) => MatrixOracle::reverse((&**a).reverse()).filtration_value(Reverse(Reverse(r))).0 .0,
            Rev2(a) => MatrixOracle::unreverse((&**a).reverse()).filtration_value(r),
            Index(a, p) => (&**a).with_basis(p.clone()).using_col_basis_index().filtration_value(r),
            Sub(a, m, d) => (&**a).with_basis(m.clone()).sub_matrix_in_dimension(*d).filtration_value(r),
            Basis(a, p) => MatrixWithBasis::new(&**a, p.clone()).filtration_value(r),
            Sum(..) => self.fil()[r],
            Func(a) | Refil(a) => {
                let f = self.fil();
                (&**a).with_filtration(move |r| f[r]).filtration_value(r)
            }
            Ptr(a, _) => (&&**a).filtration_value(r),
        }
    }
    /// the dense value, computed without the library
    pub fn dense(&self, n: usize) -> Vec<Lin<usize>> {
        match self {
            Base(b) => b.cols.iter().map(|c| lin(c.iter().cloned())).collect(),
            Prod(a, b) | RevProd(a, b) => {
                let (a, b) = (a.dense(n), b.dense(n));
                b.iter()
                    .map(|c| {
                        let mut l = Lin::new();
                        for (r, x) in c {
                            lin_axpy(&mut l, *x, &a[*r], P);
                        }
                        l
                    })
                    .collect()
            }
            Sum(a, b) => {
                let (a, b) = (a.dense(n), b.dense(n));
                a.into_iter()
                    .zip(b)
                    .map(|(mut x, y)| {
                        lin_axpy(&mut x, 1, &y, P);
                        x
                    })
                    .collect()
            }
            Cons(a) | RevRev(a) | Rev2(a) | Sub(a, _, _) | Basis(a, _) | Func(a) | Ptr(a, _) | Refil(a) => a.dense(n),
            Cache(a) => a.oracle.0.dense(n),
            Index(a, p) => {
                let d = a.dense(n);
                p.iter().map(|i| d[*i].clone()).collect()
            }
        }
    }
    pub fn name(&self) -> String {
        match self {
            Base(_) => "M".into(),
            Prod(a, b) => format!("product({},{})", a.name(), b.name()),
            Sum(a, b) => format!("sum({},{})", a.name(), b.name()),
            Cons(a) => format!("consolidate({})", a.name()),
            Cache(a) => format!("cache({})", a.oracle.0.name()),
            RevProd(a, b) => format!("unreverse(product(rev {},rev {}))", a.name(), b.name()),
            RevRev(a) => format!("rev(rev {})", a.name()),
            Rev2(a) => format!("unrev(rev {})", a.name()),
            Index(a, p) => format!("index({},{p:?})", a.name()),
            Sub(a, m, d) => format!("sub({},{:?},{d})", a.name(), m.0),
            Basis(a, p) => format!("basis({},{p:?})", a.name()),
            Func(a) => format!("filter({})", a.name()),
            Ptr(a, k) => format!("ptr{k}({})", a.name()),
            Refil(a) => format!("refilter({})", a.name()),
        }
    }
    fn bases(&self) -> Vec<&Base<P>> {
        match self {
            Base(b) => vec![b],
            Prod(a, b) | Sum(a, b) | RevProd(a, b) => {
                let mut v = a.bases();
                v.extend(b.bases());
                v
            }
            Cons(a) | RevRev(a) | Rev2(a) | Index(a, _) | Sub(a, _, _) | Basis(a, _) | Func(a) | Ptr(a, _) | Refil(a) => a.bases(),
            Cache(a) => a.oracle.0.bases(),
        }
    }
    fn cells(&self) -> String {
        let v: Vec<_> = self.bases().iter().map(|b| b.cols.iter().map(|c| c.iter().map(|(x, r)| (x.v(), *r)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
        format!("{v:?}")
    }
}
#[derive(Debug)]
pub struct Own<const P: u64>(Box<Ex<P>>);
impl<const P: u64> MatrixOracle for Own<P> {
    type CoefficientField = TF<P>;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (TF<P>, usize)> {
        self.0.col(col).into_iter()
    }
}
impl<const P: u64> HasRowFiltration for Own<P> {
    type FiltrationT = usize;
    fn filtration_value(&self, row: usize) -> usize {
        self.0.fv(row)
    }
    fn column_with_filtration(&self, col: usize) -> impl Iterator<Item = ColumnEntry<usize, usize, TF<P>>> {
        self.0.fcol(col).into_iter()
    }
}
impl<const P: u64> MatrixOracle for Ex<P> {
    type CoefficientField = TF<P>;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (TF<P>, usize)> {
        self.col(col).into_iter()
    }
}
impl<const P: u64> HasRowFiltration for Ex<P> {
    type FiltrationT = usize;
    fn filtration_value(&self, row: usize) -> usize {
        self.fv(row)
    }
    fn column_with_filtration(&self, col: usize) -> impl Iterator<Item = ColumnEntry<usize, usize, TF<P>>> {
        self.fcol(col).into_iter()
    }
}

fn base<const P: u64>(r: &mut Rng, n: usize, fil: &Rc<Vec<usize>>) -> Base<P> {
    let cols = (0..n)
        .map(|_| {
            let k = if n > 8 && r.chance(1, 8) { r.below(3 * n) } else { r.below(n.min(3) + 2) };
            let mut c: Col<P> = (0..k).map(|_| (TF::rand(r), r.below(n))).collect();
            if k > 0 && r.chance(1, 4) {
                let (x, y) = c[r.below(c.len())];
                c.push((x.additive_inverse(), y));
            }
            c
        })
        .collect();
    Ex::<P>::Base(Base { cols, fil: fil.clone() }).into_base()
}
impl<const P: u64> Ex<P> {
    fn into_base(self) -> Base<P> {
        match self {
            Base(b) => b,
            _ => unreachable!(),
        }
    }
}
fn split(r: &mut Rng, n: usize) -> Multi {
    let p = r.perm(n);
    let mut m = vec![vec![], vec![], vec![]];
    for x in p {
        m[r.below(3)].push(x);
    }
    Multi(m)
}
fn ex<const P: u64>(r: &mut Rng, n: usize, depth: usize, fil: &Rc<Vec<usize>>) -> Ex<P> {
    if depth == 0 {
        return Base(base(r, n, fil));
    }
    let d = depth - 1;
    let a = Box::new(ex(r, n, d, fil));
    match r.below(16) {
        0 | 1 => Prod(a, Box::new(ex(r, n, r_depth(d), fil))),
        2 => Sum(a, Box::new(ex(r, n, r_depth(d), fil))),
        3 => Cons(a),
        4 | 5 => Cache(Own(a).cache_cols()),
        6 => RevProd(a, Box::new(ex(r, n, r_depth(d), fil))),
        7 => RevRev(a),
        8 => Rev2(a),
        9 => Index(a, r.perm(n)),
        10 => {
            let m = split(r, n);
            let k = r.below(3);
            Sub(a, m, k)
        }
        11 => Basis(a, r.perm(n)),
        12 => Func(a),
        13 | 14 => Ptr(a, r.below(4) as u8),
        _ => Refil(a),
    }
}
fn r_depth(d: usize) -> usize {
    d.min(1)
}

fn c04_go<const P: u64>(r: &mut Rng, size: usize) -> Res {
    let n = if size == LARGE { 10 + r.below(35) } else { 1 + r.below(1 + size.min(5)) };
    let fil = Rc::new((0..n).map(|_| r.below(3)).collect::<Vec<_>>());
    let depth = r.below(if size == LARGE { 2 } else { 1 + size.min(4) });
    let e: Ex<P> = ex(r, n, depth, &fil);
    let dn = e.dense(n);
    let what = || format!("P={P} {} with base matrices {}", e.name(), e.cells());
    for c in 0..n {
        // twice: also repeated accesses
        for k in 0..2 {
            ckeq!(lin(e.col(c)), dn[c], "column {c} (access {k}) of {}", what());
        }
    }
    // consolidation and equality
    let con = (&e).consolidate();
    for c in 0..n {
        let v: Vec<_> = con.column(c).collect();
        let l = lin(v.clone());
        ckeq!(l, dn[c], "column {c} of consolidate({})", what());
        ck!(v.len() == l.len(), "column {c} of consolidate({}) repeats a row: {v:?}", what());
    }
    let depth = r.below(2);
    let o: Ex<P> = ex(r, n, depth, &fil);
    let od = o.dense(n);
    for c in 0..n {
        ck!(e.eq_on_col(&o, c) == (dn[c] == od[c]), "eq_on_col on column {c} of {} and {}: {} for {:?} and {:?}", what(), o.cells(), e.eq_on_col(&o, c), dn[c], od[c]);
        // a scrambled presentation, and single changed coefficients or rows
        let mut v = e.col(c);
        let x = TF::<P>::rand(r);
        let row = r.below(n);
        v.push((x, row));
        v.as_mut_slice().reverse();
        let one_off = Base { cols: vec![v.clone(); n], fil: fil.clone() };
        ck!(!e.eq_on_col(&one_off, c), "eq_on_col true although column {c} of {} differs by {x:?} in row {row}", what());
        ck!(!one_off.eq_on_col(&e, c), "eq_on_col true although column {c} of {} differs by {x:?} in row {row}", what());
        v.insert(0, (x.additive_inverse(), row));
        let same = Base { cols: vec![v; n], fil: fil.clone() };
        ck!(e.eq_on_col(&same, c) && same.eq_on_col(&e, c), "eq_on_col false on column {c} of {} against another presentation", what());
    }
    // caches read while being read
    let ca = (&e).cache_cols();
    for c in 0..n {
        let mut l: Lin<usize> = Lin::new();
        for (x, row) in ca.column(c) {
            let inner = lin(ca.column(row));
            ckeq!(inner, dn[row], "column {row} of cache({}) read while column {c} is read", what());
            lin_axpy(&mut l, x.v(), &inner, P);
        }
        ckeq!(lin(product(&ca, &ca).column(c)), l, "column {c} of the square of cache({})", what());
        ckeq!(lin(product(&ca, &ca).column(c)), l, "column {c} of the square of cache({}), again", what());
        ckeq!(lin(ca.column(c)), dn[c], "column {c} of cache({})", what());
    }
    // reversed indices directly, twice, and the inner matrix back
    let rv = (&e).reverse();
    for c in 0..n {
        ckeq!(lin(rv.column(Reverse(c)).map(|(x, r)| (x, r.0))), dn[c], "column {c} of reverse({})", what());
    }
    ckeq!(lin(rv.unreverse().column(0)), dn[0], "unreversed {}", what());
    // stored matrices
    let b: Base<P> = base(r, n, &fil);
    let st = |v: Vec<Vec<(TF<P>, usize)>>, how: &str| -> Result<(), String> {
        ckeq!(v, b.cols, "entries of a stored matrix built by {how}");
        Ok(())
    };
    let cols = &b.cols;
    let all = |m: &VecVecMatrix<TF<P>, usize>| (0..n).map(|c| m.column(c).collect::<Vec<_>>()).collect::<Vec<_>>();
    st(all(&VecVecMatrix::from(cols)), "from(&Vec)")?;
    st(all(&VecVecMatrix::from(cols.clone())), "from(Vec)")?;
    st(all(&VecVecMatrix::from(Cow::Borrowed(cols))), "from(Cow::Borrowed)")?;
    st(all(&VecVecMatrix::from(Cow::Owned(cols.clone()))), "from(Cow::Owned)")?;
    st(all(&VecVecMatrix::new(cols.clone())), "new")?;
    let ones: VecVecMatrix<TF<P>, usize> = VecVecMatrix::new_all_one(cols.iter().map(|c| c.iter().map(|t| t.1).collect::<Vec<_>>()).collect::<Vec<_>>());
    for c in 0..n {
        let e: Vec<_> = cols[c].iter().map(|t| (TF::<P>::one(), t.1)).collect();
        ckeq!(ones.column(c).collect::<Vec<_>>(), e, "column {c} of new_all_one");
    }
    let map: FxHashMap<usize, Vec<(TF<P>, usize)>> = cols.iter().cloned().enumerate().map(|(i, c)| (3 * i + 1, c)).collect();
    let mm = |m: &MapVecMatrix<TF<P>, usize, usize>| (0..n).map(|c| m.column(3 * c + 1).collect::<Vec<_>>()).collect::<Vec<_>>();
    st(mm(&MapVecMatrix::from(&map)), "MapVecMatrix::from(&map)")?;
    st(mm(&MapVecMatrix::from(map.clone())), "MapVecMatrix::from(map)")?;
    let nontrivial = dn.iter().any(|c| !c.is_empty());
    Ok(Info { key: nontrivial.then(|| hash_str(&what())), sample: what() })
}
pub fn c04(r: &mut Rng, _case: u64, size: usize) -> Res {
    match r.below(4) {
        0 => c04_go::<2>(r, size),
        1 => c04_go::<3>(r, size),
        2 => c04_go::<7>(r, size),
        _ => c04_go::<101>(r, size),
    }
}

fn c05_go<const P: u64>(r: &mut Rng, size: usize) -> Res {
    let n = if size == LARGE { 10 + r.below(35) } else { 1 + r.below(1 + size.min(5)) };
    let fil = Rc::new((0..n).map(|_| r.below(3)).collect::<Vec<_>>());
    let depth = r.below(if size == LARGE { 2 } else { 1 + size.min(4) });
    let e: Ex<P> = ex(r, n, depth, &fil);
    let what = || format!("P={P} {} with base matrices {} and filtration {fil:?}", e.name(), e.cells());
    check_filtered(&e, 0..n, |row| fil[*row], &what)?;
    for c in 0..n {
        // attached filtrations other than the inner one
        let g = (&e).with_filtration(|x| Reverse(x * 5 % 3));
        check_filtered(&g, c..c + 1, |x| Reverse(x * 5 % 3), &|| format!("with_filtration({})", what()))?;
        let t = (&e).with_trivial_filtration();
        check_filtered(&t, c..c + 1, |_| (), &|| format!("with_trivial_filtration({})", what()))?;
        let rv = (&e).reverse();
        check_filtered(&rv, std::iter::once(Reverse(c)), |x| Reverse(fil[x.0]), &|| format!("reverse({})", what()))?;
        let pr = product(&g, &e);
        check_filtered(&pr, c..c + 1, |x| Reverse(x * 5 % 3), &|| format!("product(with_filtration({}), same)", what()))?;
    }
    let nontrivial = e.dense(n).iter().any(|c| !c.is_empty());
    Ok(Info { key: nontrivial.then(|| hash_str(&what())), sample: what() })
}
/// the filtered column, the plain column, filtration_value and build_bhcol agree
pub fn check_filtered<const P: u64, M: HasRowFiltration<CoefficientField = TF<P>>>(
    m: &M,
    cols: impl Iterator<Item = M::ColT>,
    f: impl Fn(&M::RowT) -> M::FiltrationT,
    what: &dyn Fn() -> String,
) -> Result<(), String>
where
    M::ColT: std::fmt::Debug,
    M::RowT: std::fmt::Debug,
    M::FiltrationT: std::fmt::Debug,
{
    for c in cols {
        let plain = lin(m.column(c.clone()));
        let fc: Vec<(TF<P>, M::RowT, M::FiltrationT)> = m.column_with_filtration(c.clone()).map(|e| e.into()).collect();
        for (x, row, fv) in &fc {
            let want = f(row);
            ckeq!(*fv, want, "value attached to row {row:?} (coefficient {}) in column {c:?} of {}", x.v(), what());
            ckeq!(m.filtration_value(row.clone()), want, "filtration value of row {row:?} of {}", what());
        }
        ckeq!(lin(fc.into_iter().map(|t| (t.0, t.1))), plain, "filtered column {c:?} of {}", what());
        let mut b = m.build_bhcol(c.clone());
        let mut got = Lin::new();
        let mut last: Option<(M::FiltrationT, M::RowT)> = None;
        while let Some(e) = b.pop_pivot() {
            let (x, row, fv): (TF<P>, M::RowT, M::FiltrationT) = e.into();
            ckeq!(fv, f(&row), "value of row {row:?} in the heap of column {c:?} of {}", what());
            ck!(!got.contains_key(&row), "row {row:?} twice in the heap of column {c:?} of {}", what());
            let k = (fv, row.clone());
            if let Some(l) = &last {
                ck!(*l > k, "heap of column {c:?} of {} is not sorted", what());
            }
            last = Some(k);
            got.insert(row, x.v());
        }
        ckeq!(got, plain, "heap of column {c:?} of {}", what());
    }
    Ok(())
}
pub fn c05(r: &mut Rng, case: u64, size: usize) -> Res {
    if case % 3 == 1 {
        return crate::rips::c05_rips(r, size);
    }
    if case % 3 == 2 {
        return crate::grpph::c05_grpph(r, size);
    }
    match r.below(4) {
        0 => c05_go::<2>(r, size),
        1 => c05_go::<3>(r, size),
        2 => c05_go::<7>(r, size),
        _ => c05_go::<101>(r, size),
    }
}

// ---------------------------------------------------------------- C09
fn elems<B: ColBasis>(b: &B) -> Vec<B::ElemT> {
    (0..b.size()).map(|i| b.element(i)).collect()
}
fn rev<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().rev().cloned().collect()
}
pub fn c09(r: &mut Rng, case: u64, size: usize) -> Res {
    if case % 3 == 1 {
        return crate::rips::c09_rips(r, size);
    }
    if case % 3 == 2 {
        return crate::grpph::c09_grpph(r, size);
    }
    const P: u64 = 7;
    let n = if size == LARGE { r.below(1000) } else { r.below(2 + size.min(8)) };
    let fil = Rc::new((0..n).map(|_| r.below(3)).collect::<Vec<_>>());
    let v = r.perm(n);
    let m = split(r, n);
    let flat: Vec<usize> = m.0.iter().flatten().cloned().collect();
    let s = format!("basis {v:?}, split basis {:?}", m.0);
    // views of a basis
    ckeq!(elems(&v), v, "elements of a Vec: {s}");
    ckeq!(elems(&&v), v, "elements through a reference: {s}");
    let rb = ColBasis::reverse(&v);
    ckeq!(elems(&rb).into_iter().map(|x| x.0).collect::<Vec<_>>(), rev(&v), "reversed basis: {s}");
    ckeq!(rb.size(), n, "size of the reversed basis: {s}");
    let rr = ColBasis::reverse(rb);
    ckeq!(elems(&rr).into_iter().map(|x| x.0 .0).collect::<Vec<_>>(), v, "twice reversed basis: {s}");
    ckeq!(elems(&ColBasis::unreverse(rb)), v, "unreverse of reverse: {s}");
    ckeq!(elems(rb.unreverse()), v, "inner of reverse: {s}");
    let rvec: Vec<Reverse<usize>> = v.iter().map(|x| Reverse(*x)).collect();
    let ub = ColBasis::unreverse(&rvec);
    ckeq!(elems(&ub), rev(&v), "unreversed basis: {s}");
    ckeq!(elems(&ColBasis::reverse(ub)), rvec, "reverse of unreverse: {s}");
    // through Deref of the handles, and split
    let rm = ReverseBasis(&m);
    ckeq!(elems(&*rm).into_iter().map(|x| x.0).collect::<Vec<_>>(), rev(&flat), "dereferenced reversed handle: {s}");
    ckeq!(elems(&*UnreverseBasis(&rvec)), rev(&v), "dereferenced unreversed handle: {s}");
    for d in 0..3 {
        ckeq!(elems((&m).in_dimension(d)), m.0[d], "dimension {d}: {s}");
        ckeq!(elems(rm.in_dimension(d)).into_iter().map(|x| x.0).collect::<Vec<_>>(), rev(&m.0[d]), "dimension {d} of the reversed handle: {s}");
        ckeq!(elems(SplitByDimension::in_dimension(&*rm, d)).into_iter().map(|x| x.0).collect::<Vec<_>>(), rev(&m.0[d]), "dimension {d} of the dereferenced reversed handle: {s}");
        let urm = UnreverseBasis(rm);
        ckeq!(elems(urm.in_dimension(d)), m.0[d], "dimension {d} of unreverse(reverse): {s}");
    }
    // reverse lookup
    let look: HashMap<usize, usize> = v.construct_reverse_lookup();
    let want: HashMap<usize, usize> = v.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    ckeq!(look, want, "reverse lookup: {s}");
    let look = m.construct_reverse_lookup();
    let want: HashMap<usize, usize> = flat.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    ckeq!(look, want, "reverse lookup of the split basis: {s}");
    let look = rb.construct_reverse_lookup();
    let want: HashMap<Reverse<usize>, usize> = v.iter().rev().cloned().enumerate().map(|(i, x)| (Reverse(x), i)).collect();
    ckeq!(look, want, "reverse lookup of the reversed basis: {s}");
    if case % 510 == 6 {
        let w = [256, 40_000, 70_000][r.below(3)] + r.below(3);
        let look = ColBasis::construct_reverse_lookup(&StandardBasis::new(w));
        ckeq!(look.len(), w, "reverse lookup of {w} elements: size");
        ck!((0..w).all(|i| look[&i] == i), "reverse lookup of {w} elements: {:?} is not at its position", (0..w).find(|i| look[i] != *i));
    }
    ckeq!(elems(&StandardBasis::new(n)), (0..n).collect::<Vec<_>>(), "standard basis");
    // handles of matrices
    let b: Base<P> = base(r, n, &fil);
    let mv = (&b).with_basis(v.clone());
    let mm = (&b).with_basis(m.clone());
    macro_rules! h {
        ($m:expr, $want:expr, $n:literal) => {{
            let x = $m;
            let hb = x.basis();
            let got = elems(std::ops::Deref::deref(&hb));
            ckeq!(ColBasis::size(std::ops::Deref::deref(&hb)), $want.len(), "size of the basis of {}: {s}", $n);
            ckeq!(got, $want, "basis of {}: {s}", $n);
        }};
    }
    let revv: Vec<_> = rev(&v).into_iter().map(Reverse).collect();
    let revf: Vec<_> = rev(&flat).into_iter().map(Reverse).collect();
    h!(&mv, v, "with_basis");
    h!(&&mv, v, "& with_basis");
    h!((&mv).with_trivial_filtration(), v, "with_trivial_filtration");
    h!((&mv).with_filtration(|x| x), v, "with_filtration");
    h!((&mv).consolidate(), v, "consolidate");
    h!((&mv).cache_cols(), v, "cache_cols");
    h!(product(&b, &mv), v, "product");
    h!((&mv).reverse(), revv, "reverse");
    h!(product((&b).reverse(), (&mv).reverse()), revv, "product of reversed");
    h!(MatrixOracle::unreverse(product((&b).reverse(), (&mv).reverse())), v, "unreverse(product of reversed)");
    h!((&mm).reverse(), revf, "reverse, split");
    h!(MatrixOracle::unreverse((&mm).reverse().with_trivial_filtration()), flat, "unreverse(reverse), split");
    h!((&b).reverse().with_basis(rvec.clone()), rvec, "reverse with basis");
    h!((&mm).consolidate().cache_cols().with_filtration(|x| x), flat, "consolidate+cache+filtration");
    let vv: VecVecMatrix<TF<P>, usize> = VecVecMatrix::from(&b.cols);
    h!(&vv, (0..n).collect::<Vec<_>>(), "VecVecMatrix");
    h!((&vv).reverse(), (0..n).rev().map(Reverse).collect::<Vec<_>>(), "reversed VecVecMatrix");
    for d in 0..3 {
        let rd: Vec<_> = rev(&m.0[d]).into_iter().map(Reverse).collect();
        h!((&mm).sub_matrix_in_dimension(d), m.0[d], "sub_matrix_in_dimension");
        h!((&mm).reverse().sub_matrix_in_dimension(d), rd, "reverse then sub_matrix");
        h!((&mm).sub_matrix_in_dimension(d).reverse(), rd, "sub_matrix then reverse");
        h!(MatrixOracle::unreverse((&mm).reverse().consolidate()).sub_matrix_in_dimension(d), m.0[d], "unreverse then sub_matrix");
        h!((&mm).cache_cols().with_filtration(|x| x).sub_matrix_in_dimension(d).consolidate(), m.0[d], "cache+filtration+sub_matrix+consolidate");
        let rmm = (&mm).reverse();
        ckeq!(elems(rmm.basis().in_dimension(d)), rd, "dimension {d} through the reversed handle: {s}");
    }
    // positions
    let ix = (&mv).using_col_basis_index();
    for i in 0..n {
        ckeq!(lin(ix.column(i)), lin(b.column(v[i])), "column at position {i}: {s}");
    }
    let _ = BTreeMap::<u8, u8>::new();
    Ok(Info { key: (n > 1).then(|| hash_str(&s)), sample: s })
}
