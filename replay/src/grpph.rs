//! C13 to C16 and the path-homology parts of C05 and C09.
use crate::matrix::check_filtered;
use crate::util::*;
use crate::{ck, ckeq};
use ordered_float::NotNan;
use phlite::matrices::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use std::cell::OnceCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use PathHom2Cell::*;
use PathHomCell::*;

type T = NotNan<f64>;
struct G {
    n: usize,
    vec: VecDigraphFiltration,
    map: MapDigraphFiltration,
    edges: DigraphEdgeSet,
    one: OnceCell<BTreeMap<(u16, u16), T>>,
    two: OnceCell<BTreeMap<PathHom2Cell, T>>,
}
fn nn(x: f64) -> T {
    NotNan::new(x).unwrap()
}
fn graph(r: &mut Rng, size: usize) -> G {
    let n = if size == LARGE { 7 + r.below(20) } else { r.below(2 + size.min(5)) };
    let vals: Vec<f64> = match r.below(3) {
        0 => vec![1.0, 2.0, 3.0],
        1 => vec![0.0, 0.5, 1.0],
        _ => (0..12).map(|i| i as f64 / 3.0).collect(),
    };
    let (mn, me) = (r.below(6), r.below(5));
    let mut vec = vec![vec![None; n]; n];
    let mut map = MapDigraphFiltration::default();
    let mut edges = DigraphEdgeSet::default();
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            if !r.chance(mn, 8) {
                let t = nn(vals[r.below(vals.len())]);
                vec[i][j] = Some(t);
                map.insert((i as u16, j as u16), t);
            }
            if r.chance(me, 8) {
                edges.insert((i as u16, j as u16));
            }
        }
    }
    G { n, vec, map, edges, one: OnceCell::new(), two: OnceCell::new() }
}
impl G {
    fn show(&self) -> String {
        let mut e: Vec<_> = self.map.iter().map(|(k, t)| (k.0, k.1, t.into_inner())).collect();
        e.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let g: BTreeSet<_> = self.edges.iter().collect();
        format!("{} nodes, edge times {e:?}, grounded edges {g:?}", self.n)
    }
    fn t(&self, a: usize, b: usize) -> Option<T> {
        self.vec[a][b]
    }
    fn path(&self, a: usize, b: usize, c: usize) -> Option<T> {
        Some(self.t(a, b)?.max(self.t(b, c)?))
    }
    fn bridge(&self, a: usize, c: usize) -> Option<usize> {
        let (t, b) = (0..self.n).filter_map(|b| Some((self.path(a, b, c)?, b))).min()?;
        match self.t(a, c) {
            Some(u) if t >= u => None,
            _ => Some(b),
        }
    }
    /// all 2-cells of the filtration with their times
    fn cells2(&self) -> BTreeMap<PathHom2Cell, T> {
        let mut m = BTreeMap::new();
        for a in 0..self.n {
            for c in 0..self.n {
                let br = if a == c { None } else { self.bridge(a, c) };
                for b in 0..self.n {
                    let Some(t) = self.path(a, b, c) else { continue };
                    let (x, y, z) = (a as u16, b as u16, c as u16);
                    if a == c {
                        m.insert(DoubleEdge(x, y), t);
                        continue;
                    }
                    match self.t(a, c) {
                        Some(u) if t >= u => {
                            m.insert(DirectedTriangle(x, y, z), t);
                        }
                        u => {
                            let p = br.unwrap();
                            if p == b {
                                if let Some(u) = u {
                                    m.insert(DirectedTriangle(x, y, z), u);
                                }
                            } else {
                                m.insert(LongSquare(x, p as u16, y, z), t);
                            }
                        }
                    }
                }
            }
        }
        m
    }
    fn cells1(&self) -> BTreeMap<(u16, u16), T> {
        let mut m = BTreeMap::new();
        for i in 0..self.n {
            for j in 0..self.n {
                let e = (i as u16, j as u16);
                if self.edges.contains(&e) {
                    m.insert(e, nn(0.0));
                } else if let Some(t) = self.t(i, j) {
                    m.insert(e, t);
                }
            }
        }
        m
    }
    fn time(&self, c: &PathHomCell) -> T {
        match c {
            Node(_) => nn(0.0),
            Edge(a, b) => self.one.get_or_init(|| self.cells1())[&(*a, *b)],
            TwoCell(x) => self.two.get_or_init(|| self.cells2())[x],
        }
    }
}
fn bd<const P: u64>(c: &PathHomCell) -> Lin<PathHomCell> {
    let mut l = Lin::new();
    let m = P - 1;
    let v: Vec<(u64, PathHomCell)> = match *c {
        Node(_) => vec![],
        Edge(a, b) => vec![(1, Node(b)), (m, Node(a))],
        TwoCell(DoubleEdge(a, b)) => vec![(1, Edge(a, b)), (1, Edge(b, a))],
        TwoCell(DirectedTriangle(a, b, c)) => vec![(1, Edge(b, c)), (m, Edge(a, c)), (1, Edge(a, b))],
        TwoCell(LongSquare(a, b, c, d)) => vec![(1, Edge(a, c)), (1, Edge(c, d)), (m, Edge(a, b)), (m, Edge(b, d))],
    };
    for (x, c) in v {
        lin_add(&mut l, &c, x, P);
    }
    l
}
fn sample(g: &G, s: String) -> Info {
    Info { key: (!g.cells2().is_empty()).then(|| hash_str(&s)), sample: s }
}

fn c13_go<const P: u64>(r: &mut Rng, size: usize) -> Res {
    let g = graph(r, size);
    let n = g.n as u16;
    let s = format!("P={P} {}", g.show());
    let c2 = g.cells2();
    let c1 = g.cells1();
    // bridges
    for bm in [build_primary_bridge_map(&g.vec, n), build_primary_bridge_map(&g.map, n)] {
        for a in 0..g.n {
            for b in 0..g.n {
                ckeq!(bm.get(&(a as u16, b as u16)).map(|x| *x as usize), g.bridge(a, b), "primary bridge of ({a},{b}): {s}");
            }
        }
        ck!(bm.keys().all(|k| k.0 < n && k.1 < n), "primary bridge of an unknown pair: {s}");
    }
    // expected coboundary by transposing the boundary
    let mut cb: BTreeMap<PathHomCell, Lin<PathHomCell>> = BTreeMap::new();
    let cells: Vec<PathHomCell> = c1.keys().map(|e| Edge(e.0, e.1)).chain(c2.keys().map(|c| TwoCell(*c))).collect();
    for c in &cells {
        for (e, x) in bd::<P>(c) {
            lin_add(cb.entry(e).or_default(), c, x, P);
        }
    }
    let d = GrPPHCoboundary::<TF<P>, _>::build(&g.vec, &g.edges, n);
    let dm = GrPPHCoboundary::<TF<P>, _>::build(&g.map, &g.edges, n);
    let b = GrPPHBoundary::<TF<P>, _>::build(&g.vec, &g.edges, PathHomSingleBasis(vec![]));
    for e in (0..n).map(Node).chain(c1.keys().map(|e| Edge(e.0, e.1))) {
        let want = cb.get(&e).cloned().unwrap_or_default();
        ckeq!(lin(d.column(e)), want, "coboundary of {e:?}: {s}");
        ckeq!(lin(dm.column(e)), want, "coboundary of {e:?} (map filtration): {s}");
        let f: Vec<(TF<P>, PathHomCell, T)> = d.column_with_filtration(e).map(|x| x.into()).collect();
        ckeq!(lin(f.into_iter().map(|t| (t.0, t.1))), want, "filtered coboundary of {e:?}: {s}");
        for (c, x) in &want {
            let bc = lin(b.column(*c));
            ckeq!(bc.get(&e), Some(x), "coefficient of {e:?} in the boundary of {c:?}: {s}");
        }
    }
    Ok(sample(&g, s))
}
pub fn c13(r: &mut Rng, _case: u64, size: usize) -> Res {
    match r.below(3) {
        0 => c13_go::<2>(r, size),
        1 => c13_go::<3>(r, size),
        _ => c13_go::<101>(r, size),
    }
}
pub fn c14(r: &mut Rng, _case: u64, size: usize) -> Res {
    const P: u64 = 5;
    let g = graph(r, size);
    let n = g.n as u16;
    let s = g.show();
    let (c1, c2) = (g.cells1(), g.cells2());
    let d = GrPPHCoboundary::<TF<P>, _>::build(&g.vec, &g.edges, n);
    let dm = GrPPHCoboundary::<TF<P>, _>::build(&g.map, &g.edges, n);
    let b = GrPPHBoundary::<TF<P>, _>::build(&g.vec, &g.edges, PathHomSingleBasis(vec![]));
    for x in 0..g.n {
        for y in 0..g.n {
            for z in 0..g.n {
                ckeq!(two_path_time(&g.vec, &(x as u16), &(y as u16), &(z as u16)), g.path(x, y, z), "time of the path {x},{y},{z}: {s}");
            }
        }
    }
    let cells: Vec<(PathHomCell, T)> = (0..n).map(|i| (Node(i), nn(0.0))).chain(c1.iter().map(|(e, t)| (Edge(e.0, e.1), *t))).chain(c2.iter().map(|(c, t)| (TwoCell(*c), *t))).collect();
    for (c, t) in &cells {
        ckeq!(d.filtration_value(*c), *t, "time of {c:?} (coboundary matrix): {s}");
        ckeq!(dm.filtration_value(*c), *t, "time of {c:?} (coboundary matrix, map filtration): {s}");
        ckeq!(b.filtration_value(*c), *t, "time of {c:?} (boundary matrix): {s}");
        for (f, _) in lin(b.column(*c)) {
            ck!(d.filtration_value(f) <= *t, "{c:?} appears before {f:?} in its boundary: {s}");
        }
        if let TwoCell(_) = c {
            continue;
        }
        // through the handle with a basis (default implementation) and from the matrix inside (its own)
        let both = d.column_with_filtration(*c).collect::<Vec<_>>().into_iter().chain(d.matrix.column_with_filtration(*c));
        for e in both {
            let (_, y, f): (TF<P>, PathHomCell, T) = e.into();
            ckeq!(f, g.time(&y), "time attached to {y:?} in the coboundary of {c:?}: {s}");
        }
    }
    // cells of any shape allowed by the edge times, also those not in the chosen basis
    let (x, y, z, w) = (r.below(g.n), r.below(g.n), r.below(g.n), r.below(g.n));
    if g.n > 0 {
        let q = |v: usize| v as u16;
        if let (Some(p), Some(e)) = (g.path(x, y, z), g.t(x, z)) {
            let c = TwoCell(DirectedTriangle(q(x), q(y), q(z)));
            ckeq!(d.filtration_value(c), p.max(e), "time of {c:?} (coboundary matrix): {s}");
            ckeq!(b.filtration_value(c), p.max(e), "time of {c:?} (boundary matrix): {s}");
        }
        if let (Some(p), Some(e)) = (g.path(x, y, z), g.path(x, w, z)) {
            let c = TwoCell(LongSquare(q(x), q(y), q(w), q(z)));
            ckeq!(d.filtration_value(c), p.max(e), "time of {c:?} (coboundary matrix): {s}");
            ckeq!(b.filtration_value(c), p.max(e), "time of {c:?} (boundary matrix): {s}");
        }
    }
    Ok(sample(&g, s))
}
fn c15_go<const P: u64>(r: &mut Rng) -> Res {
    let mut l = || if r.chance(1, 2) { r.below(3) as u16 } else { r.next() as u16 };
    let (x, y, z, w) = (l(), l(), l(), l());
    let c = match r.below(5) {
        0 => Node(x),
        1 => Edge(x, y),
        2 => TwoCell(DoubleEdge(x, y)),
        3 => TwoCell(DirectedTriangle(x, y, z)),
        _ => TwoCell(LongSquare(x, y, z, w)),
    };
    let map = MapDigraphFiltration::default();
    let es = DigraphEdgeSet::default();
    let b = GrPPHBoundary::<TF<P>, _>::build(&map, &es, PathHomSingleBasis(vec![]));
    let d = lin(b.column(c));
    let s = format!("P={P} {c:?}");
    ckeq!(d, bd::<P>(&c), "boundary: {s}");
    let mut z = Lin::new();
    for (e, x) in &d {
        lin_axpy(&mut z, *x, &lin(b.column(*e)), P);
    }
    ck!(z.is_empty(), "boundary applied twice: {z:?}: {s}");
    Ok(Info { key: (!matches!(c, Node(_))).then(|| hash_str(&s)), sample: s })
}
pub fn c15(r: &mut Rng, _case: u64, _size: usize) -> Res {
    match r.below(4) {
        0 => c15_go::<2>(r),
        1 => c15_go::<3>(r),
        2 => c15_go::<7>(r),
        _ => c15_go::<101>(r),
    }
}
pub fn c16(r: &mut Rng, _case: u64, size: usize) -> Res {
    let g = graph(r, size);
    let n = g.n as u16;
    let s = g.show();
    let w0: Vec<PathHomCell> = (0..n).map(Node).collect();
    let mut w1: Vec<(T, PathHomCell)> = g.cells1().into_iter().map(|(e, t)| (t, Edge(e.0, e.1))).collect();
    w1.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));
    let w1: Vec<PathHomCell> = w1.into_iter().map(|t| t.1).collect();
    fn el<B: ColBasis>(b: &B) -> Vec<B::ElemT> {
        (0..b.size()).map(|i| b.element(i)).collect()
    }
    let d = GrPPHCoboundary::<TF<3>, _>::build(&g.vec, &g.edges, n);
    let dm = GrPPHCoboundary::<TF<3>, _>::build(&g.map, &g.edges, n);
    for (b, k) in [(d.basis(), "vector"), (dm.basis(), "map")] {
        ckeq!(el(b.in_dimension(0)), w0, "degree 0 ({k} filtration): {s}");
        ckeq!(el(b.in_dimension(1)), w1, "degree 1 ({k} filtration): {s}");
        let mut all = w0.clone();
        all.extend(w1.clone());
        ckeq!(el(b), all, "all degrees ({k} filtration): {s}");
        for i in 0..2 {
            for (t, c) in &b.in_dimension(i).0 {
                ckeq!(*t, g.time(c), "time stored with {c:?}: {s}");
            }
        }
    }
    for c in w0.iter() {
        ckeq!(c.dimension(), 0, "dimension of {c:?}");
    }
    for c in w1.iter() {
        ckeq!(c.dimension(), 1, "dimension of {c:?}");
    }
    for c in [DoubleEdge(0, 1), DirectedTriangle(0, 1, 2), LongSquare(0, 1, 2, 3)] {
        ckeq!(TwoCell(c).dimension(), 2, "dimension of {c:?}");
    }
    Ok(Info { key: (!w1.is_empty()).then(|| hash_str(&s)), sample: s })
}
pub fn c05_grpph(r: &mut Rng, size: usize) -> Res {
    const P: u64 = 5;
    let g = graph(r, size);
    let n = g.n as u16;
    let s = g.show();
    let d = GrPPHCoboundary::<TF<P>, _>::build(&g.vec, &g.edges, n);
    let cols: Vec<PathHomCell> = (0..n).map(Node).chain(g.cells1().keys().map(|e| Edge(e.0, e.1))).collect();
    check_filtered(&d, cols.iter().copied(), |c| g.time(c), &|| format!("path-homology coboundary, {s}"))?;
    check_filtered(&d.matrix, cols.iter().copied(), |c| g.time(c), &|| format!("path-homology coboundary (inner matrix), {s}"))?;
    let rd = MatrixOracle::reverse(&d.matrix);
    check_filtered(&rd, cols.iter().map(|c| Reverse(*c)), |c| Reverse(g.time(&c.0)), &|| format!("reversed path-homology coboundary (inner matrix), {s}"))?;
    let ud = MatrixOracle::unreverse(&rd);
    check_filtered(&ud, cols.iter().copied(), |c| g.time(c), &|| format!("path-homology coboundary (inner matrix), reversed twice, {s}"))?;
    let rd = (&d).reverse();
    check_filtered(&rd, cols.iter().map(|c| Reverse(*c)), |c| Reverse(g.time(&c.0)), &|| format!("reversed path-homology coboundary, {s}"))?;
    let b = GrPPHBoundary::<TF<P>, _>::build(&g.vec, &g.edges, PathHomSingleBasis(vec![]));
    let cells: Vec<PathHomCell> = cols.iter().copied().chain(g.cells2().keys().map(|c| TwoCell(*c))).collect();
    check_filtered(&b.matrix, cells.iter().copied(), |c| g.time(c), &|| format!("path-homology boundary (inner matrix), {s}"))?;
    check_filtered(&b, cells.into_iter(), |c| g.time(c), &|| format!("path-homology boundary, {s}"))?;
    Ok(sample(&g, s))
}
pub fn c09_grpph(r: &mut Rng, size: usize) -> Res {
    let g = graph(r, size);
    let n = g.n as u16;
    let s = g.show();
    let c = GrPPHCoboundary::<TF<3>, _>::build(&g.map, &g.edges, n);
    let h = c.basis();
    let mut flat: Vec<PathHomCell> = vec![];
    for k in 0..2 {
        let sb = h.in_dimension(k);
        let e: Vec<PathHomCell> = (0..sb.size()).map(|i| sb.element(i)).collect();
        let stored: Vec<PathHomCell> = sb.0.iter().map(|t| t.1).collect();
        ckeq!(e, stored, "elements in degree {k}: {s}");
        let sub = (&c).sub_matrix_in_dimension(k);
        let x: Vec<PathHomCell> = (0..sub.basis().size()).map(|i| sub.basis().element(i)).collect();
        ckeq!(x, e, "sub-matrix basis in degree {k}: {s}");
        let rs = (&c).reverse().sub_matrix_in_dimension(k);
        let mut x: Vec<PathHomCell> = (0..rs.basis().size()).map(|i| rs.basis().element(i).0).collect();
        x.as_mut_slice().reverse();
        ckeq!(x, e, "reversed sub-matrix basis in degree {k}: {s}");
        flat.extend(e);
    }
    ckeq!(h.size(), flat.len(), "size: {s}");
    ckeq!((0..h.size()).map(|i| h.element(i)).collect::<Vec<_>>(), flat, "concatenation: {s}");
    let look = h.construct_reverse_lookup();
    ckeq!(look.len(), flat.len(), "reverse lookup: {s}");
    for (i, x) in flat.iter().enumerate() {
        ckeq!(look.get(x).copied(), Some(i), "reverse lookup of {x:?}: {s}");
    }
    Ok(Info { key: (flat.len() > 1).then(|| hash_str(&s)), sample: s })
}
