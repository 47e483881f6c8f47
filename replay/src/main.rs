//! Bounded search for inputs on which the library breaks a property, against oracles that do
//! not use the library. `vpreplay PROP --seed S --ms N --out FILE [--case K]`
mod bars;
mod column;
mod fields;
mod grpph;
mod matrix;
mod reduction;
mod rips;
mod util;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

type CaseFn = fn(&mut Rng, u64, usize) -> Res;
fn table(p: &str) -> Option<(CaseFn, &'static str)> {
    Some(match p {
        "C01" => (fields::c01, "complete operation tables of the six fields up to the isomorphism k -> 1+..+1, then random compositions of operations; a composition is non-trivial when it performs an operation"),
        "C02" => (fields::c02, "random expressions of sums, products, negations and inverses over fractions of up to 41 bits, compared with exact 128-bit fractions; non-trivial when at least one operation fits the word size"),
        "C03" => (column::c03, "random histories of add, pop, clone_pivot, peek, drain over several row, filtration and field types (occasionally with thousands of entries), compared with an ordered map; non-trivial when the pivot is inspected"),
        "C04" => (matrix::c04, "random nestings (depth up to 5) of all combinators and adaptors over random square matrices of up to 6 (occasionally 44) columns, compared with dense linear algebra mod 2, 3, 7, 101; non-trivial when the matrix is non-zero"),
        "C05" => (matrix::c05, "random nestings as for C04, Rips and path-homology matrices: filtered column against plain column and filtration; non-trivial when the matrix is non-zero"),
        "C06" => (reduction::c06, "random square matrices and random filtered complexes with shuffled bases; V, R=DV recomputed with dense arithmetic; non-trivial when at least one column needs a reduction"),
        "C07" => (reduction::c07, "random filtered complexes with known barcode (a canonical complex conjugated by unitriangular matrices), boundary and coboundary, both reading orders; non-trivial when a pair exists"),
        "C08" => (reduction::c08, "as C07 with clearing over random contiguous dimension ranges; V, R=DV, cycle queries and diagram against the known barcode; non-trivial when a pair exists"),
        "C09" => (matrix::c09, "random bases, split bases, matrices with handles through adaptors, Rips and path-homology bases, compared with plain vectors; non-trivial when the basis has two elements"),
        "C10" => (rips::c10, "all lists over up to 3 points and length up to 4, then random lists up to the word size; non-trivial when the list is non-empty"),
        "C11" => (rips::c11, "random symmetric distance matrices with ties on up to 7 (occasionally 47) points and maximum dimensions up to 4, compared with direct enumeration; non-trivial when an edge exists"),
        "C12" => (rips::c12, "random symmetric distance matrices on up to 6 points, all simplices (occasionally up to 306 points, sampled simplices), compared with the alternating face formula; non-trivial when there are two points"),
        "C13" => (grpph::c13, "random filtered digraphs on up to 6 (occasionally 26) nodes with ties and missing edges; coboundary against the transposed boundary over all 2-cells, bridge map against direct search; non-trivial when a 2-cell exists"),
        "C14" => (grpph::c14, "as C13: times of all cells and of all coboundary entries, and monotonicity; non-trivial when a 2-cell exists"),
        "C15" => (grpph::c15, "random cells over random labels; boundary formula and its square; every cell is non-trivial except nodes"),
        "C16" => (grpph::c16, "random filtered digraphs and edge sets, basis against direct enumeration; non-trivial when an edge exists"),
        "C17" => (bars::c17, "random weighted digraphs on up to 6 (occasionally 10) nodes (ties, zero and infinite weights, parallel edges) through the extension module in Python; bars and representatives against ranks of path homology computed from its definition; non-trivial when a finite bar exists"),
        "C18" => (rips::c18, "random symmetric distance matrices with ties on up to 6 points (occasionally 16, then without the ranks), random top dimensions; homology and cohomology, standard algorithm and clearing, against each other and against persistent Betti numbers from ranks; non-trivial when there are two points"),
        _ => return None,
    })
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn cap(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + " ..." }
}

#[derive(Default)]
struct State {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let ms: u64 = opt("--ms").and_then(|s| s.parse().ok()).unwrap_or(3000);
    let only: Option<u64> = opt("--case").and_then(|s| s.parse().ok());
    let out = opt("--out");
    let Some((f, rule)) = table(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let st = Arc::new(Mutex::new(State::default()));
    let current = Arc::new(AtomicU64::new(u64::MAX));
    let started = Arc::new(Mutex::new(Instant::now()));
    let t0 = Instant::now();
    let finish = {
        let st = st.clone();
        let prop = prop.clone();
        move |viol: Option<(u64, String)>| {
            let s = st.lock().unwrap_or_else(|e| e.into_inner());
            let v = match &viol {
                None => "null".to_string(),
                Some((k, m)) => format!("{{\"case\":{k},\"seed\":{seed},\"what\":{},\"rerun\":{}}}", esc(&cap(m, 6000)), esc(&format!("vpreplay {prop} --seed {seed} --case {k}"))),
            };
            let j = format!(
                "{{\"property\":{},\"seed\":{seed},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"wall_ms\":{},\"violation\":{v}}}\n",
                esc(&prop), s.evaluations, s.distinct.len(), esc(rule),
                s.samples.iter().map(|x| esc(&cap(x, 500))).collect::<Vec<_>>().join(","),
                t0.elapsed().as_millis()
            );
            if let Some(o) = &out {
                std::fs::write(o, &j).expect("write result");
            } else {
                print!("{j}");
            }
            std::process::exit(if viol.is_some() { 1 } else { 0 });
        }
    };
    let fin = Arc::new(finish);
    std::panic::set_hook(Box::new(|_| {}));
    let opt_beat = opt("--out").map(|o| o + ".case");
    let worker = {
        let (st, current, started, fin) = (st.clone(), current.clone(), started.clone(), fin.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut k = only.unwrap_or(0);
            let beat = opt_beat.map(|p| std::fs::File::create(p).expect("case file"));
            loop {
                if let Some(b) = &beat {
                    use std::os::unix::fs::FileExt;
                    let _ = b.write_at(format!("{k:020}").as_bytes(), 0);
                }
                *started.lock().unwrap() = Instant::now();
                current.store(k, Ordering::SeqCst);
                let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (k + 1).wrapping_mul(0xD1B54A32D192ED03));
                r.next();
                // now and then a case larger than the rest
                let size = if k % 61 == 29 { LARGE } else { 1 + (k as usize) / 8 % 40 };
                let x = catch_unwind(AssertUnwindSafe(|| f(&mut r, k, size)));
                let v = match x {
                    Ok(Ok(i)) => {
                        let mut s = st.lock().unwrap();
                        s.evaluations += 1;
                        if let Some(h) = i.key {
                            if s.distinct.insert(h) && s.samples.len() < 3 && (k % 7 == 3 || s.samples.is_empty()) {
                                s.samples.push(i.sample);
                            }
                        }
                        None
                    }
                    Ok(Err(m)) => Some(m),
                    Err(p) => {
                        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                        Some(format!("panic: {m}"))
                    }
                };
                if let Some(m) = v {
                    fin(Some((k, m)));
                }
                k += 1;
                if only.is_some() || t0.elapsed() > Duration::from_millis(ms) {
                    fin(None);
                }
            }
        }).unwrap()
    };
    loop {
        std::thread::sleep(Duration::from_millis(200));
        if worker.is_finished() {
            std::thread::sleep(Duration::from_millis(500));
            std::process::exit(2);
        }
        let s = *started.lock().unwrap();
        if s.elapsed() > Duration::from_secs(30) {
            let k = current.load(Ordering::SeqCst);
            fin(Some((k, "this case does not terminate (30 s; the largest cases take milliseconds on the unchanged library)".into())));
        }
    }
}
