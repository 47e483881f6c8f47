//! C17: the extension module itself, called from Python, against path homology computed from its
//! definition (chains of allowed paths with allowed boundary, ranks over Z2) on exact shortest paths.
use crate::util::*;
use crate::{ck, ckeq};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const SERVER: &str = r#"
import sys, importlib.machinery, importlib.util, os, ctypes
ctypes.CDLL(None).prctl(1, 9)
sys.stderr = open(os.devnull, 'w'); os.dup2(sys.stderr.fileno(), 2)
l = importlib.machinery.ExtensionFileLoader('phlite_grpph', sys.argv[1])
m = importlib.util.module_from_spec(importlib.util.spec_from_loader('phlite_grpph', l)); l.exec_module(m)
def flat(bars):
    return ' '.join(f'{len(d)} ' + ' '.join((repr(x) if isinstance(x, float) else f'{x[0]!r} {x[1]!r}') for x in d) for d in bars)
for line in sys.stdin:
    w = line.split(); n = int(w[0]); es = [(int(w[i]), int(w[i + 1]), float(w[i + 2])) for i in range(1, len(w), 3)]
    try:
        a = m.grpph(n, es); b = m.grpph_with_involution(n, es)
        out = ' '.join([str(len(a[0])), flat(a[0]), str(len(a[1])), flat(a[1]), str(len(b[0])), flat(b[0]), str(len(b[1])), flat(b[1]), str(len(b[2]))] + [f'{len(r)} ' + ' '.join(f'{e[0]} {e[1]}' for e in r) for r in b[2]])
    except BaseException as x:
        out = '! ' + repr(x).replace('\n', ' ')
    print(out, flush=True)
"#;
struct Py {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
thread_local! { static PY: RefCell<Option<Py>> = const { RefCell::new(None) }; }
fn start() -> Py {
    let so = std::env::current_exe().unwrap().parent().unwrap().join("deps/libphlite_grpph.so");
    let mut child = Command::new("/usr/bin/python3").arg("-c").arg(SERVER).arg(so).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("python3");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Py { child, to, from }
}
/// Err is a failure of the module, a Rust panic one of this harness
fn ask(n: usize, es: &[(usize, usize, f64)]) -> Result<String, String> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(start);
        let mut s = n.to_string();
        for (i, j, t) in es {
            s += &format!(" {i} {j} {t:?}");
        }
        s.push('\n');
        let mut l = String::new();
        if p.to.write_all(s.as_bytes()).is_err() || p.to.flush().is_err() || p.from.read_line(&mut l).unwrap_or(0) == 0 {
            return Err(format!("the module ended the process: {:?}", p.child.wait()));
        }
        Ok(l)
    })
}
type Bars = (Vec<Vec<f64>>, Vec<Vec<(f64, f64)>>);
fn bars(w: &mut std::str::SplitWhitespace) -> Bars {
    let num = |w: &mut std::str::SplitWhitespace| w.next().unwrap().parse::<f64>().unwrap();
    let k = num(w) as usize;
    let e = (0..k).map(|_| (0..num(w) as usize).map(|_| num(w)).collect()).collect();
    let k = num(w) as usize;
    let p = (0..k).map(|_| (0..num(w) as usize).map(|_| (num(w), num(w))).collect()).collect();
    (e, p)
}

// ------------------------------------------------------------ the oracle
/// vectors over Z2 as sets; an echelon basis by greatest element
#[derive(Default, Clone)]
struct Span(BTreeMap<usize, BTreeSet<usize>>);
fn xor(a: &mut BTreeSet<usize>, b: &BTreeSet<usize>) {
    for x in b {
        if !a.remove(x) {
            a.insert(*x);
        }
    }
}
impl Span {
    fn reduce(&self, mut v: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        while let Some(&m) = v.last() {
            match self.0.get(&m) {
                Some(b) => xor(&mut v, b),
                None => {
                    v.remove(&m);
                    out.insert(m);
                }
            }
        }
        out
    }
    fn add(&mut self, v: BTreeSet<usize>) -> bool {
        let r = self.reduce(v);
        match r.last() {
            Some(&m) => {
                self.0.insert(m, r);
                true
            }
            None => false,
        }
    }
    fn rank(&self) -> usize {
        self.0.len()
    }
}
/// a basis of the kernel of the map sending e_i to img[i]
fn kernel(img: &[BTreeSet<usize>]) -> Vec<BTreeSet<usize>> {
    let mut piv: BTreeMap<usize, (BTreeSet<usize>, BTreeSet<usize>)> = BTreeMap::new();
    let mut ker = vec![];
    for (i, v) in img.iter().enumerate() {
        let (mut v, mut c) = (v.clone(), BTreeSet::from([i]));
        while let Some(&m) = v.last() {
            match piv.get(&m) {
                Some((b, bc)) => {
                    xor(&mut v, b);
                    xor(&mut c, bc);
                }
                None => break,
            }
        }
        match v.last() {
            Some(&m) => {
                piv.insert(m, (v, c));
            }
            None => ker.push(c),
        }
    }
    ker
}
struct Pph {
    n: usize,
    es: Vec<(usize, usize, f64)>,
    sp: Vec<Vec<f64>>,
}
impl Pph {
    fn new(n: usize, es: &[(usize, usize, f64)]) -> Self {
        let mut sp = vec![vec![f64::INFINITY; n]; n];
        for &(i, j, t) in es {
            sp[i][j] = sp[i][j].min(t);
        }
        // lengths are summed from the first edge on, which matters when sums are rounded
        let w = sp;
        let mut sp = vec![vec![f64::INFINITY; n]; n];
        for i in 0..n {
            sp[i][i] = 0.0;
            for _ in 0..n {
                for k in 0..n {
                    for j in 0..n {
                        sp[i][j] = sp[i][j].min(sp[i][k] + w[k][j]);
                    }
                }
            }
        }
        Pph { n, es: es.to_vec(), sp }
    }
    fn arrow(&self, i: usize, j: usize, t: f64) -> bool {
        i != j && self.sp[i][j] < f64::INFINITY && self.sp[i][j] <= t
    }
    fn id(&self, i: usize, j: usize) -> usize {
        i * self.n + j
    }
    fn time1(&self, i: usize, j: usize) -> f64 {
        if self.es.iter().any(|e| (e.0, e.1) == (i, j)) { 0.0 } else { self.sp[i][j] }
    }
    fn edges(&self, t: f64) -> Vec<(usize, usize)> {
        (0..self.n).flat_map(|i| (0..self.n).map(move |j| (i, j))).filter(|&(i, j)| i != j && self.time1(i, j) < f64::INFINITY && self.time1(i, j) <= t).collect()
    }
    fn ends(&self, e: &(usize, usize)) -> BTreeSet<usize> {
        BTreeSet::from([e.0, e.1])
    }
    /// cycles of the 1-chains at t
    fn z1(&self, t: f64) -> Vec<BTreeSet<usize>> {
        let es = self.edges(t);
        let img: Vec<_> = es.iter().map(|e| self.ends(e)).collect();
        kernel(&img).into_iter().map(|c| c.into_iter().map(|i| self.id(es[i].0, es[i].1)).collect()).collect()
    }
    fn b0(&self, t: f64) -> Span {
        let mut s = Span::default();
        for e in self.edges(t) {
            s.add(self.ends(&e));
        }
        s
    }
    /// boundaries of the 2-chains at t: combinations of allowed 2-paths whose boundary is allowed
    fn b1(&self, t: f64) -> Span {
        let n = self.n;
        let mut paths = vec![];
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    if self.arrow(a, b, t) && self.arrow(b, c, t) {
                        paths.push((a, b, c));
                    }
                }
            }
        }
        let bad: Vec<BTreeSet<usize>> = paths.iter().map(|&(a, _, c)| if a != c && !self.arrow(a, c, t) { BTreeSet::from([self.id(a, c)]) } else { BTreeSet::new() }).collect();
        let mut s = Span::default();
        for k in kernel(&bad) {
            let mut v = BTreeSet::new();
            for i in k {
                let (a, b, c) = paths[i];
                xor(&mut v, &BTreeSet::from([self.id(a, b)]));
                xor(&mut v, &BTreeSet::from([self.id(b, c)]));
                if a != c {
                    xor(&mut v, &BTreeSet::from([self.id(a, c)]));
                }
            }
            s.add(v);
        }
        s
    }
}
/// bars born by t and alive at s
fn alive(b: &Bars, dim: usize, t: f64, s: f64) -> usize {
    b.0[dim].iter().filter(|x| **x <= t).count() + b.1[dim].iter().filter(|x| x.0 <= t && x.1 > s).count()
}

fn case(r: &mut Rng, size: usize) -> (usize, Vec<(usize, usize, f64)>) {
    let n = if size == LARGE { 7 + r.below(4) } else { r.below(2 + size.min(5)) };
    let vals: Vec<f64> = match r.below(5) {
        0 => vec![1.0],
        3 => vec![0.1, 0.3, 0.7, 1e-9, 3.3],
        1 => vec![1.0, 2.0, 3.0],
        2 => vec![0.0, 0.5, 1.0, f64::INFINITY],
        _ => (0..12).map(|i| i as f64 / 4.0).chain([1000.0, f64::INFINITY]).collect(),
    };
    let mut es = vec![];
    if n > 1 {
        let m = r.below(2 * n + 2);
        if r.chance(1, 2) {
            // a cycle, so that there is something in degree 1
            let p = r.perm(n);
            for i in 0..n {
                let (a, b) = (p[i], p[(i + 1) % n]);
                es.push(if r.chance(1, 4) { (b, a, vals[r.below(vals.len())]) } else { (a, b, vals[r.below(vals.len())]) });
            }
        }
        for _ in 0..m {
            let (i, j) = (r.below(n), r.below(n));
            if i != j {
                es.push((i, j, vals[r.below(vals.len())]));
            }
        }
    }
    (n, es)
}
pub fn c17(r: &mut Rng, _k: u64, size: usize) -> Res {
    let (n, es) = case(r, size);
    let show = format!("{n} nodes, edges {es:?}");
    // now and then the graph lies among many isolated vertices
    let (pos, all): (Vec<usize>, usize) = if n > 0 && r.chance(1, 40) {
        let mut next = 0;
        let pos: Vec<usize> = (0..n)
            .map(|_| {
                next += 1 + if r.chance(1, 2) { 0 } else { r.below(300 / n) };
                next - 1
            })
            .collect();
        let up = [0, 40, 257][r.below(3)];
        (pos.iter().map(|i| i + up).collect(), next + up)
    } else {
        ((0..n).collect(), n)
    };
    let show = if all == n { show } else { format!("{show} on the nodes {pos:?} of {all}") };
    let sent: Vec<_> = es.iter().map(|&(i, j, t)| (pos[i], pos[j], t)).collect();
    let line = ask(all, &sent).map_err(|e| format!("{show}: {e}"))?;
    if let Some(e) = line.strip_prefix('!') {
        return Err(format!("{show}: exception {e}"));
    }
    let w = &mut line.split_whitespace();
    let a = bars(w);
    let b = bars(w);
    let num = |w: &mut std::str::SplitWhitespace| w.next().unwrap().parse::<usize>().unwrap();
    let nr = num(w);
    let reps: Vec<Vec<(usize, usize)>> = (0..nr).map(|_| (0..num(w)).map(|_| (num(w), num(w))).collect()).collect();
    let inv = |i: usize| pos.iter().position(|p| *p == i).unwrap_or(n);
    let reps: Vec<Vec<(usize, usize)>> = reps.iter().map(|c| c.iter().map(|&(i, j)| (inv(i), inv(j))).collect()).collect();
    let o = Pph::new(n, &es);
    let mut ts: Vec<f64> = vec![0.0];
    ts.extend(o.sp.iter().flatten().filter(|x| **x < f64::INFINITY));
    ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
    ts.dedup();
    let z1: Vec<_> = ts.iter().map(|t| o.z1(*t)).collect();
    let b1: Vec<_> = ts.iter().map(|t| o.b1(*t)).collect();
    let b0: Vec<_> = ts.iter().map(|t| o.b0(*t)).collect();
    for (name, x) in [("grpph", &a), ("grpph_with_involution", &b)] {
        ckeq!((x.0.len(), x.1.len()), (2, 2), "{show}: {name}: number of degrees");
        for d in 0..2 {
            for (p, q) in &x.1[d] {
                ck!(p < q && ts.contains(p) && ts.contains(q), "{show}: {name}: bar ({p}, {q}) in degree {d} is empty or has an end that is no time of the filtration");
            }
            for p in &x.0[d] {
                ck!(ts.contains(p), "{show}: {name}: essential bar from {p} in degree {d}, no time of the filtration");
            }
        }
        for i in 0..ts.len() {
            for j in i..ts.len() {
                ckeq!(alive(x, 0, ts[i], ts[j]), all - b0[j].rank(), "{show}: {name}: bars of degree 0 born by {} and alive at {} ({x:?})", ts[i], ts[j]);
                let mut s = b1[j].clone();
                let rank = z1[i].iter().filter(|z| s.add((*z).clone())).count();
                ckeq!(alive(x, 1, ts[i], ts[j]), rank, "{show}: {name}: bars of degree 1 born by {} and alive at {} ({x:?})", ts[i], ts[j]);
            }
        }
    }
    // representatives of the finite bars
    let mut found = vec![];
    let mut vecs = vec![];
    for c in &reps {
        let mut v = BTreeSet::new();
        let mut ends = BTreeSet::new();
        let mut birth = 0.0f64;
        for &(i, j) in c {
            ck!(i < n && j < n && i != j && o.time1(i, j) < f64::INFINITY, "{show}: representative {c:?} has an edge outside the filtration");
            ck!(v.insert(o.id(i, j)), "{show}: representative {c:?} repeats an edge");
            xor(&mut ends, &BTreeSet::from([i, j]));
            birth = birth.max(o.time1(i, j));
        }
        ck!(ends.is_empty(), "{show}: representative {c:?} is no cycle");
        let Some(d) = (0..ts.len()).find(|k| b1[*k].reduce(v.clone()).is_empty()) else {
            return Err(format!("{show}: representative {c:?} never dies"));
        };
        found.push((birth, ts[d]));
        vecs.push(v);
    }
    let mut want = b.1[1].clone();
    for x in [&mut found, &mut want] {
        x.sort_by(|p, q| p.partial_cmp(q).unwrap());
    }
    ckeq!(found, want, "{show}: births and deaths of the representatives {reps:?}");
    for (k, t) in ts.iter().enumerate() {
        let mut s = b1[k].clone();
        for (c, v) in reps.iter().zip(&vecs) {
            let born = c.iter().all(|e| o.time1(e.0, e.1) <= *t);
            if born && !b1[k].reduce(v.clone()).is_empty() {
                ck!(s.add(v.clone()), "{show}: representatives alive at {t} are dependent ({reps:?})");
            }
        }
    }
    let key = if a.1[1].is_empty() && a.1[0].is_empty() { None } else { Some(hash_str(&show)) };
    Ok(Info { key, sample: format!("{show}: {a:?}") })
}
