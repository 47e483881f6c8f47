//! C10, C11, C12 and the Rips parts of C05 and C09.
use crate::matrix::check_filtered;
use crate::util::*;
use crate::{ck, ckeq};
use ordered_float::NotNan;
use crate::reduction::rank;
use phlite::matrices::*;
use phlite::reduction::*;
use std::cmp::Reverse;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::{build_rips_bases, RipsIndex};
use std::collections::{BTreeMap, BTreeSet};

fn nn(x: f64) -> NotNan<f64> {
    NotNan::new(x).unwrap()
}
/// code of a list, by the definition in the documentation
fn code(v: &[usize], n: usize) -> Option<u128> {
    let mut s: u128 = 0;
    let mut m: u128 = 1;
    for x in v {
        s = s.checked_add(m.checked_mul(*x as u128 + 1)?)?;
        m = m.checked_mul(n as u128 + 1)?;
    }
    (m <= 1 << 64).then_some(s)
}
fn one_list(v: &[usize], n: usize) -> Result<Option<RipsIndex>, String> {
    let i = RipsIndex::from_indices(v.iter().copied(), n);
    match i {
        None => ck!(v.is_empty(), "list {v:?} over {n} points has no index"),
        Some(i) => {
            ck!(!v.is_empty(), "the empty list over {n} points has the index {i:?}");
            ckeq!(i.to_vec(n), v.to_vec(), "decoding {i:?} over {n} points");
            ckeq!(i.dimension(n), v.len() - 1, "dimension of {v:?} over {n} points");
        }
    }
    Ok(i)
}
pub fn c10(r: &mut Rng, case: u64, size: usize) -> Res {
    if case == 0 {
        for n in 0..4usize {
            let mut seen: BTreeMap<RipsIndex, Vec<usize>> = BTreeMap::new();
            let mut lists: Vec<Vec<usize>> = vec![vec![]];
            let mut level = lists.clone();
            for _ in 0..4 {
                level = level.iter().flat_map(|l| (0..n).map(move |x| { let mut m = l.clone(); m.push(x); m })).collect();
                lists.extend(level.clone());
            }
            for l in lists {
                if let Some(i) = one_list(&l, n)? {
                    if let Some(o) = seen.insert(i, l.clone()) {
                        return Err(format!("lists {o:?} and {l:?} over {n} points share the index {i:?}"));
                    }
                }
            }
        }
        return Ok(Info { key: Some(1), sample: "all lists over 0..3 points of length up to 4".into() });
    }
    let bits = 1 + r.below(63);
    let n = match r.below(4) {
        0 => 1 + r.below(4),
        1 => 1 + r.below(100),
        2 => 1 + r.below(1 << 20),
        _ => 1 + (r.next() as usize & ((1usize << bits) - 1)).min(usize::MAX - 1),
    };
    let mut v = vec![];
    let goal = r.below(2 + size.min(40) * 2);
    loop {
        let mut w = v.clone();
        w.push(match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        });
        if w.len() > goal || code(&w, n).is_none() {
            break;
        }
        v = w;
    }
    let i = one_list(&v, n)?;
    let s = format!("list {v:?} over {n} points");
    if !v.is_empty() {
        // a different list of any shape
        let mut w = v.clone();
        match r.below(3) {
            0 => {
                w.pop();
            }
            1 => w.swap(0, v.len() - 1),
            _ => {
                let k = r.below(w.len());
                w[k] = r.below(n);
            }
        }
        let j = RipsIndex::from_indices(w.iter().copied(), n);
        ck!((w == v) == (i == j), "{s} and {w:?} have the indices {i:?} and {j:?}");
    }
    Ok(Info { key: (!v.is_empty()).then(|| hash_str(&s)), sample: s })
}

type D = Vec<Vec<NotNan<f64>>>;
fn distances(r: &mut Rng, n: usize) -> D {
    let vals: Vec<f64> = match r.below(4) {
        0 => vec![1.0, 2.0],
        2 => vec![1.0, 2.0, 2.0, 3.0, f64::INFINITY],
        1 => vec![0.0, 0.5, 1.0, 1.5, 3.25],
        _ => (0..20).map(|i| i as f64 / 7.0).collect(),
    };
    let mut d = vec![vec![nn(0.0); n]; n];
    for i in 0..n {
        for j in 0..i {
            let x = nn(vals[r.below(vals.len())]);
            d[i][j] = x;
            d[j][i] = x;
        }
    }
    d
}
fn simplices(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        v = v.into_iter().flat_map(|s| (s.last().map_or(0, |x| x + 1)..n).map(move |x| { let mut t = s.clone(); t.push(x); t })).collect();
    }
    v
}
fn diam(d: &D, s: &[usize]) -> NotNan<f64> {
    let mut m = nn(0.0);
    for a in s {
        for b in s {
            m = m.max(d[*a][*b]);
        }
    }
    m
}
fn show(d: &D) -> String {
    format!("distances {:?}", d.iter().map(|r| r.iter().map(|x| x.into_inner()).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn idx(s: &[usize], n: usize) -> RipsIndex {
    RipsIndex::from_indices(s.iter().copied(), n).unwrap()
}
fn wanted(d: &D, max_dim: usize) -> Vec<Vec<(NotNan<f64>, u128, Vec<usize>)>> {
    let n = d.len();
    (0..=max_dim)
        .map(|k| {
            let mut v: Vec<_> = simplices(n, k + 1).into_iter().map(|s| (diam(d, &s), code(&s, n).unwrap(), s)).collect();
            v.sort();
            v
        })
        .collect()
}
pub fn c11(r: &mut Rng, _case: u64, size: usize) -> Res {
    let n = if size == LARGE { 8 + r.below(40) } else { r.below(2 + size.min(6)) };
    let max_dim = if n > 20 { r.below(2) } else if n > 8 { r.below(3) } else { r.below(5) };
    let d = distances(r, n);
    let s = format!("max_dim {max_dim}, {}", show(&d));
    let b = build_rips_bases(&d, max_dim);
    let w = wanted(&d, max_dim);
    let bm = build_rips_boundary_matrix::<TF<7>>(d.clone(), max_dim);
    let cm = build_rips_coboundary_matrix::<TF<7>>(d.clone(), max_dim);
    for k in 0..=max_dim {
        let want: Vec<Vec<usize>> = w[k].iter().map(|t| t.2.clone()).collect();
        for (nm, b) in [("build_rips_bases", &b), ("boundary matrix", bm.basis()), ("coboundary matrix", cm.basis())] {
            let sb = b.in_dimension(k);
            let got: Vec<Vec<usize>> = (0..sb.size()).map(|i| sb.element(i).to_vec(n)).collect();
            ckeq!(got, want, "basis in dimension {k} from {nm}: {s}");
        }
        for t in &w[k] {
            ckeq!(bm.filtration_value(idx(&t.2, n)), t.0, "filtration value of {:?} in the boundary matrix: {s}", t.2);
            ckeq!(cm.filtration_value(idx(&t.2, n)), t.0, "filtration value of {:?} in the coboundary matrix: {s}", t.2);
        }
    }
    let flat: Vec<Vec<usize>> = w.iter().flatten().map(|t| t.2.clone()).collect();
    ckeq!(b.size(), flat.len(), "total size: {s}");
    let got: Vec<Vec<usize>> = (0..b.size()).map(|i| b.element(i).to_vec(n)).collect();
    ckeq!(got, flat, "flattened basis: {s}");
    Ok(Info { key: (n > 1).then(|| hash_str(&s)), sample: s })
}
/// some simplices among many points
fn c12_many<const P: u64>(r: &mut Rng) -> Res {
    let n = if r.chance(1, 2) { 7 + r.below(8) } else { 7 + r.below(300) };
    let d = distances(r, n);
    let b = build_rips_boundary_matrix::<TF<P>>(d.clone(), 0);
    let c = build_rips_coboundary_matrix::<TF<P>>(d.clone(), 0);
    let sgn = |i: usize| if i % 2 == 0 { 1 } else { P - 1 };
    let dec = |l: Lin<RipsIndex>| -> Lin<Vec<usize>> { l.into_iter().map(|(i, x)| (i.to_vec(n), x)).collect() };
    let mut top = 1;
    while top < n && (n as u128 + 1).checked_pow(top as u32 + 2).is_some_and(|x| x <= 1 << 64) {
        top += 1;
    }
    let mut first = String::new();
    for _ in 0..6 {
        let k = 1 + r.below(top);
        let mut x = r.perm(n);
        x.truncate(k);
        x.as_mut_slice().sort();
        let s = format!("P={P}, {n} points, simplex {x:?}, {}", if n < 15 { show(&d) } else { String::new() });
        let mut l = Lin::new();
        if k > 1 {
            for i in 0..k {
                let mut y = x.clone();
                y.remove(i);
                lin_add(&mut l, &y, sgn(i), P);
            }
        }
        ckeq!(dec(lin(b.column(idx(&x, n)))), l, "boundary: {s}");
        let mut l = Lin::new();
        for v in (0..n).filter(|v| !x.contains(v) && k < top) {
            let p = x.iter().filter(|w| **w < v).count();
            let mut y = x.clone();
            y.insert(p, v);
            lin_add(&mut l, &y, sgn(p), P);
        }
        if k < top {
            ckeq!(dec(lin(c.column(idx(&x, n)))), l, "coboundary: {s}");
            for e in c.column_with_filtration(idx(&x, n)) {
                let (_, y, f): (TF<P>, RipsIndex, NotNan<f64>) = e.into();
                ckeq!(f, diam(&d, &y.to_vec(n)), "value of {:?} in the filtered coboundary: {s}", y.to_vec(n));
            }
        }
        ckeq!(b.filtration_value(idx(&x, n)), diam(&d, &x), "filtration value (boundary matrix): {s}");
        ckeq!(c.filtration_value(idx(&x, n)), diam(&d, &x), "filtration value (coboundary matrix): {s}");
        first = s;
    }
    Ok(Info { key: Some(hash_str(&first)), sample: first })
}
fn c12_go<const P: u64>(r: &mut Rng, size: usize) -> Res {
    if size == LARGE {
        return c12_many::<P>(r);
    }
    let n = r.below(2 + size.min(5));
    let d = distances(r, n);
    let s = format!("P={P} {}", show(&d));
    let b = build_rips_boundary_matrix::<TF<P>>(d.clone(), 1);
    let c = build_rips_coboundary_matrix::<TF<P>>(d.clone(), 1);
    let sgn = |i: usize| if i % 2 == 0 { 1 } else { P - 1 };
    let dec = |l: Lin<RipsIndex>| -> Lin<Vec<usize>> { l.into_iter().map(|(i, x)| (i.to_vec(n), x)).collect() };
    let mut bd: BTreeMap<Vec<usize>, Lin<Vec<usize>>> = BTreeMap::new();
    let mut cb: BTreeMap<Vec<usize>, Lin<Vec<usize>>> = BTreeMap::new();
    for k in 1..=n {
        for x in simplices(n, k) {
            let mut l = Lin::new();
            if k > 1 {
                for i in 0..k {
                    let mut y = x.clone();
                    y.remove(i);
                    lin_add(&mut l, &y, sgn(i), P);
                }
            }
            let got = dec(lin(b.column(idx(&x, n))));
            ckeq!(got, l, "boundary of {x:?}: {s}");
            bd.insert(x.clone(), l);
            let mut l = Lin::new();
            for v in 0..n {
                if !x.contains(&v) {
                    let p = x.iter().filter(|w| **w < v).count();
                    let mut y = x.clone();
                    y.insert(p, v);
                    ck!(diam(&d, &x) <= diam(&d, &y), "unreachable");
                    lin_add(&mut l, &y, sgn(p), P);
                }
            }
            let got = dec(lin(c.column(idx(&x, n))));
            ckeq!(got, l, "coboundary of {x:?}: {s}");
            cb.insert(x.clone(), l);
            ckeq!(b.filtration_value(idx(&x, n)), diam(&d, &x), "filtration value of {x:?} (boundary matrix): {s}");
            ckeq!(c.filtration_value(idx(&x, n)), diam(&d, &x), "filtration value of {x:?} (coboundary matrix): {s}");
            let fc: Vec<(TF<P>, RipsIndex, NotNan<f64>)> = c.column_with_filtration(idx(&x, n)).map(|e| e.into()).collect();
            for (_, y, f) in fc {
                ckeq!(f, diam(&d, &y.to_vec(n)), "value of {:?} in the filtered coboundary of {x:?}: {s}", y.to_vec(n));
            }
        }
    }
    // transposes and squares, from the library's own columns
    for (x, l) in &cb {
        for (y, c) in l {
            ckeq!(bd[y].get(x), Some(c), "transpose at {x:?}, {y:?}: {s}");
        }
        for m in [&bd, &cb] {
            let mut z = Lin::new();
            for (y, c) in &m[x] {
                lin_axpy(&mut z, *c, &m[y], P);
            }
            ck!(z.is_empty(), "square at {x:?}: {z:?}: {s}");
        }
    }
    Ok(Info { key: (n > 1).then(|| hash_str(&s)), sample: s })
}
pub fn c12(r: &mut Rng, _case: u64, size: usize) -> Res {
    match r.below(4) {
        0 => c12_go::<2>(r, size),
        1 => c12_go::<3>(r, size),
        2 => c12_go::<7>(r, size),
        _ => c12_go::<101>(r, size),
    }
}
pub fn c05_rips(r: &mut Rng, size: usize) -> Res {
    const P: u64 = 5;
    let n = if size == LARGE { 7 + r.below(3) } else { 1 + r.below(1 + size.min(5)) };
    let d = distances(r, n);
    let s = show(&d);
    let b = build_rips_boundary_matrix::<TF<P>>(d.clone(), 1);
    let c = build_rips_coboundary_matrix::<TF<P>>(d.clone(), 1);
    for k in 1..=n {
        let xs: Vec<RipsIndex> = simplices(n, k).iter().map(|x| idx(x, n)).collect();
        check_filtered(&b, xs.iter().copied(), |y| diam(&d, &y.to_vec(n)), &|| format!("Rips boundary, {s}"))?;
        check_filtered(&c, xs.iter().copied(), |y| diam(&d, &y.to_vec(n)), &|| format!("Rips coboundary, {s}"))?;
        // the handle with a basis goes through the default implementation; the matrix inside has its own
        check_filtered(&b.matrix, xs.iter().copied(), |y| diam(&d, &y.to_vec(n)), &|| format!("Rips boundary (inner matrix), {s}"))?;
        check_filtered(&c.matrix, xs.iter().copied(), |y| diam(&d, &y.to_vec(n)), &|| format!("Rips coboundary (inner matrix), {s}"))?;
        let rc = MatrixOracle::reverse(&c.matrix);
        check_filtered(&rc, xs.iter().map(|x| std::cmp::Reverse(*x)), |y| std::cmp::Reverse(diam(&d, &y.0.to_vec(n))), &|| format!("reversed Rips coboundary (inner matrix), {s}"))?;
        let uc = MatrixOracle::unreverse(&rc);
        check_filtered(&uc, xs.iter().copied(), |y| diam(&d, &y.to_vec(n)), &|| format!("Rips coboundary (inner matrix), reversed twice, {s}"))?;
        let rc = (&c).reverse();
        check_filtered(&rc, xs.iter().map(|x| std::cmp::Reverse(*x)), |y| std::cmp::Reverse(diam(&d, &y.0.to_vec(n))), &|| format!("reversed Rips coboundary, {s}"))?;
    }
    Ok(Info { key: (n > 1).then(|| hash_str(&s)), sample: s })
}
pub fn c09_rips(r: &mut Rng, size: usize) -> Res {
    let n = if size == LARGE { 7 + r.below(20) } else { r.below(2 + size.min(5)) };
    // beyond the dimension of the full simplex now and then
    let max_dim = r.below(if n > 12 { 2 } else if n < 8 { n + 2 } else { 3 });
    let d = distances(r, n);
    let s = format!("max_dim {max_dim}, {}", show(&d));
    let c = build_rips_coboundary_matrix::<TF<3>>(d.clone(), max_dim);
    let h = c.basis();
    let mut flat: Vec<RipsIndex> = vec![];
    for k in 0..=max_dim {
        let sb = h.in_dimension(k);
        let e: Vec<RipsIndex> = (0..sb.size()).map(|i| sb.element(i)).collect();
        let sub = (&c).sub_matrix_in_dimension(k);
        let g: Vec<RipsIndex> = (0..sub.basis().size()).map(|i| sub.basis().element(i)).collect();
        ckeq!(g, e, "sub-matrix basis in dimension {k}: {s}");
        let rs = (&c).reverse().sub_matrix_in_dimension(k);
        let mut g: Vec<RipsIndex> = (0..rs.basis().size()).map(|i| rs.basis().element(i).0).collect();
        g.as_mut_slice().reverse();
        ckeq!(g, e, "reversed sub-matrix basis in dimension {k}: {s}");
        flat.extend(e);
    }
    ckeq!(h.size(), flat.len(), "size: {s}");
    ckeq!((0..h.size()).map(|i| h.element(i)).collect::<Vec<_>>(), flat, "concatenation: {s}");
    ckeq!(h.construct_reverse_lookup().len(), flat.iter().collect::<BTreeSet<_>>().len(), "reverse lookup: {s}");
    for (i, x) in flat.iter().enumerate() {
        ckeq!(h.construct_reverse_lookup().get(x).copied(), Some(i), "reverse lookup of {x:?}: {s}");
        if i > 20 { break; }
    }
    Ok(Info { key: (n > 1).then(|| hash_str(&s)), sample: s })
}
/// C18: homology and cohomology, standard and with clearing, against persistent Betti numbers
fn c18_go<const P: u64>(r: &mut Rng, size: usize) -> Res {
    let large = size == LARGE;
    let n = if large { 7 + r.below(10) } else { r.below(2 + size.min(5)) };
    let d = distances(r, n);
    let (h, k) = if large { (r.below(3), r.below(2)) } else { (r.below(4), r.below(3)) };
    let s = format!("P={P}, homology up to {h}, cohomology up to {k}, {}", show(&d));
    let bm = build_rips_boundary_matrix::<TF<P>>(d.clone(), h);
    let cm = build_rips_coboundary_matrix::<TF<P>>(d.clone(), k);
    let rc = (&cm).reverse();
    type Pairs = BTreeSet<(Vec<usize>, Vec<usize>)>;
    type Ess = BTreeSet<Vec<usize>>;
    let v = |i: RipsIndex| i.to_vec(n);
    let hom = |dg: Diagram<RipsIndex>| -> (Pairs, Ess) { (dg.pairings.into_iter().map(|(a, b)| (v(a), v(b))).collect(), dg.essential.into_iter().map(v).collect()) };
    let coh = |dg: Diagram<Reverse<RipsIndex>>| -> (Pairs, Ess) { (dg.pairings.into_iter().map(|(a, b)| (v(b.0), v(a.0))).collect(), dg.essential.into_iter().map(|a| v(a.0)).collect()) };
    let mut routes = vec![];
    routes.push(("homology with clearing", h, hom(ClearedReductionMatrix::build_with_diagram(&bm, (0..=h).rev()).1), true));
    routes.push(("cohomology with clearing", k, coh(ClearedReductionMatrix::build_with_diagram(&rc, 0..=k).1), false));
    routes.push(("homology, standard algorithm", h, hom(standard_algo_with_diagram(&bm, false).1), true));
    routes.push(("cohomology, standard algorithm", k, coh(standard_algo_with_diagram(&rc, false).1), false));
    // times of the filtration and ranks of the boundary restricted to rows after a, columns up to b
    let mut times: Vec<NotNan<f64>> = d.iter().flatten().copied().collect();
    times.sort();
    times.dedup();
    let all: Vec<Vec<Vec<usize>>> = (0..=h.max(k) + 2).map(|t| simplices(n, t + 1)).collect();
    let rk = |t: usize, a: Option<NotNan<f64>>, b: NotNan<f64>| -> usize {
        if t == 0 { return 0; }
        let rows: BTreeMap<&Vec<usize>, usize> = all[t - 1].iter().filter(|x| a.is_none_or(|a| diam(&d, x) > a)).enumerate().map(|(i, x)| (x, i)).collect();
        let mut m = vec![];
        for y in all[t].iter().filter(|y| diam(&d, y) <= b) {
            let mut c = vec![0; rows.len()];
            for i in 0..=t {
                let mut z = y.clone();
                z.remove(i);
                if let Some(j) = rows.get(&z) { c[*j] = if i % 2 == 0 { 1 } else { P - 1 }; }
            }
            m.push(c);
        }
        rank(m, P)
    };
    // ranks are left out of the large cases: there the routes are compared with each other
    for (nm, top, (pairs, ess), down) in routes.iter().filter(|_| !large) {
        // homology knows the deaths of the classes of degree below h, cohomology those of degree up to k
        for t in 0..(if *down { *top } else { *top + 1 }) {
            for (i, a) in times.iter().enumerate() {
                for b in &times[i..] {
                    let cycles = all[t].iter().filter(|x| diam(&d, x) <= *a).count() - rk(t, None, *a);
                    let bounding = rk(t + 1, None, *b) - rk(t + 1, Some(*a), *b);
                    let born = |x: &Vec<usize>| x.len() == t + 1 && diam(&d, x) <= *a;
                    let got = pairs.iter().filter(|(x, y)| born(x) && diam(&d, y) > *b).count() + ess.iter().filter(|x| born(x)).count();
                    ckeq!(got, cycles - bounding, "bars of degree {t} over [{a}, {b}] from {nm}: {s}");
                }
            }
            for (x, y) in pairs.iter().filter(|p| p.0.len() == t + 1) {
                ckeq!(y.len(), t + 2, "number of vertices of {y:?}, paired with {x:?} by {nm}: {s}");
                ck!(diam(&d, x) <= diam(&d, y), "pair {x:?}, {y:?} of negative length from {nm}: {s}");
            }
        }
    }
    let part = |p: &Pairs, e: &Ess, c: usize| -> (Pairs, Ess) { (p.iter().filter(|q| q.0.len() <= c).cloned().collect(), e.iter().filter(|x| x.len() <= c).cloned().collect()) };
    let c = h.min(k + 1);
    let want = part(&routes[0].2 .0, &routes[0].2 .1, c);
    for (nm, _, (p, e), _) in &routes[1..] {
        ckeq!(part(p, e, c), want, "pairs and essential simplices below degree {c} from {nm}, against homology with clearing: {s}");
    }
    Ok(Info { key: (n > 1).then(|| hash_str(&s)), sample: s })
}
pub fn c18(r: &mut Rng, _case: u64, size: usize) -> Res {
    match r.below(4) {
        0 => c18_go::<2>(r, size),
        1 => c18_go::<3>(r, size),
        2 => c18_go::<7>(r, size),
        _ => c18_go::<101>(r, size),
    }
}
