//! C03
use crate::util::*;
use crate::{ck, ckeq};
use ordered_float::NotNan;
use phlite::columns::{BHCol, ColumnEntry};
use phlite::matrices::{BasisElement, FiltrationValue};
use std::cmp::Reverse;
use std::fmt::Debug;

type E<F, R, const P: u64> = ColumnEntry<F, R, TF<P>>;
fn tup<F: FiltrationValue, R: BasisElement, const P: u64>(e: E<F, R, P>) -> (u64, R, F) {
    let (c, r, f): (TF<P>, R, F) = e.into();
    (c.v(), r, f)
}

fn go<F: FiltrationValue + Debug, R: BasisElement + Debug + Clone, const P: u64>(
    r: &mut Rng,
    size: usize,
    row: impl Fn(usize) -> R,
    fil: impl Fn(&R) -> F,
) -> Res {
    let big = size == LARGE;
    let rows = 1 + r.below(if big { 3000 } else { 2 + size.min(8) });
    let stretch = if big { 1usize << (8 * r.below(7)) } else { 1 };
    let row = |x: usize| row(x * stretch);
    let steps = if big { 30 } else { 2 + r.below(4 + 2 * size) };
    let mut col: BHCol<F, R, TF<P>> = BHCol::default();
    let mut l: Lin<R> = Lin::new();
    let mut trace = format!("P={P}:");
    let pivot = |l: &Lin<R>| l.iter().map(|(x, c)| (fil(x), x.clone(), *c)).max_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1))).map(|(f, x, c)| (c, x, f));
    let mut pops = 0;
    for step in 0..steps {
        match r.below(12) {
            0..=2 => {
                let x = row(r.below(rows));
                let c = TF::<P>::rand(r);
                trace += &format!(" add({},{x:?})", c.v());
                if r.chance(1, 2) {
                    col.add_tuple((c, x.clone(), fil(&x)));
                } else {
                    col.add_entry((c, x.clone(), fil(&x)).into());
                }
                lin_add(&mut l, &x, c.v(), P);
            }
            3..=5 => {
                let n = r.below(if big { 600 } else { 6 });
                let v: Vec<(TF<P>, R, F)> = (0..n)
                    .map(|_| {
                        let x = row(r.below(rows));
                        (TF::<P>::rand(r), x.clone(), fil(&x))
                    })
                    .collect();
                trace += &format!(" add_all({:?})", v.iter().map(|t| (t.0.v(), &t.1)).collect::<Vec<_>>());
                for t in &v {
                    lin_add(&mut l, &t.1, t.0.v(), P);
                }
                if r.chance(1, 2) {
                    col.add_tuples(v);
                } else {
                    col.add_entries(v.into_iter().map(|t| E::<F, R, P>::from(t)));
                }
            }
            6 => {
                // cancel everything but the top row
                trace += " cancel";
                let p = pivot(&l);
                for (x, c) in l.clone() {
                    if p.as_ref().map(|p| &p.1) != Some(&x) {
                        col.add_tuple((TF::new(P - c).unwrap(), x.clone(), fil(&x)));
                        lin_add(&mut l, &x, P - c, P);
                    }
                }
            }
            7 => {
                trace += " pop";
                let e = pivot(&l);
                let got = col.pop_pivot().map(tup);
                ckeq!(got, e, "{trace}");
                if let Some(e) = e {
                    l.remove(&e.1);
                    pops += 1;
                }
            }
            8 => {
                trace += " clone_pivot";
                let e = pivot(&l);
                ckeq!(col.clone_pivot().map(tup), e, "{trace}");
                ckeq!(col.peek_pivot().cloned().map(tup), e, "{trace} then peek");
                ckeq!(col.clone_pivot().map(tup), e, "{trace} again");
                pops += 1;
            }
            9 => {
                let k = r.below(3);
                trace += &format!(" drain({k})");
                let got: Vec<_> = col.drain_sorted().take(k).map(tup).collect();
                for g in got {
                    let e = pivot(&l);
                    ckeq!(Some(&g), e.as_ref(), "{trace}");
                    l.remove(&g.1);
                }
                pops += 1;
            }
            _ if big => {
                let k = r.below(200);
                trace += &format!(" pop({k} times)");
                for _ in 0..k {
                    let e = pivot(&l);
                    ckeq!(col.pop_pivot().map(tup), e, "{trace}");
                    if let Some(e) = e {
                        l.remove(&e.1);
                        pops += 1;
                    }
                }
            }
            _ => {}
        }
        if big && step % 10 != 9 {
            continue;
        }
        let mut e: Vec<(u64, R, F)> = l.iter().map(|(x, c)| (*c, x.clone(), fil(x))).collect();
        e.sort_by(|a, b| (&b.2, &b.1).cmp(&(&a.2, &a.1)));
        let got: Vec<_> = col.clone().to_sorted_vec().into_iter().map(tup).collect();
        ckeq!(got, e, "{trace} sorted");
        let mut c2 = col.clone();
        let got: Vec<_> = c2.drain_sorted().map(tup).collect();
        ckeq!(got, e, "{trace} drained");
        ck!(c2.pop_pivot().is_none(), "{trace} something left after draining");
    }
    Ok(Info { key: (pops > 0).then(|| hash_str(&trace)), sample: trace })
}

pub fn c03(r: &mut Rng, _case: u64, size: usize) -> Res {
    let size = if size == LARGE { size } else { size.min(12) };
    let m = r.next();
    let ties = 1 + (m % 4) as usize;
    let scr = move |x: usize| (x.wrapping_mul(7919) ^ (m >> 8) as usize) % ties;
    match r.below(8) {
        0 => go::<(), usize, 2>(r, size, |x| x, |_| ()),
        1 => go::<usize, usize, 3>(r, size, |x| x, |x| scr(*x)),
        2 => go::<Reverse<usize>, Reverse<usize>, 5>(r, size, Reverse, |x| Reverse(scr(x.0))),
        3 => go::<NotNan<f64>, isize, 7>(r, size, |x| x as isize - 3, |x| NotNan::new((scr((x + 3) as usize)) as f64).unwrap()),
        4 => go::<isize, usize, 101>(r, size, |x| x, |x| -(scr(*x) as isize)),
        5 => go::<usize, Reverse<isize>, 2>(r, size, |x| Reverse(x as isize), |x| scr(x.0 as usize)),
        6 => go::<(), Reverse<usize>, 13>(r, size, Reverse, |_| ()),
        _ => go::<usize, usize, 2>(r, size, |x| x, |x| scr(*x)),
    }
}
