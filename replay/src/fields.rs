//! C01 and C02
use crate::util::*;
use crate::{ck, ckeq};
use phlite::fields::*;
use std::fmt::Debug;

/// Shows that the field is isomorphic to the integers mod p through k -> 1 + ... + 1.
fn field<F: Invertible + Debug + Eq>(p: u64, has_inv: bool) -> Result<(), String> {
    let one = F::one();
    let mut e: Vec<F> = vec![one];
    for k in 2..p {
        match one + *e.last().unwrap() {
            Some(x) => e.push(x),
            None => return Err(format!("in the field of order {p}, 1 added to itself {k} times is zero")),
        }
    }
    let el = |k: u64| if k % p == 0 { None } else { Some(e[(k % p - 1) as usize]) };
    for i in 1..p {
        for j in 1..p {
            let (a, b) = (el(i).unwrap(), el(j).unwrap());
            ck!((a == b) == (i == j), "order {p}: equality of {i} and {j} is {}", a == b);
            ck!((format!("{a:?}") == format!("{b:?}")) == (i == j), "order {p}: Debug of {i} and {j}");
            ckeq!(a + b, el(i + j), "order {p}: {i} + {j}");
            ckeq!(a + Some(b), el(i + j), "order {p}: {i} + Some({j})");
            ckeq!(Some(a * b), el(i * j), "order {p}: {i} * {j}");
        }
        let a = el(i).unwrap();
        ckeq!(a + None, Some(a), "order {p}: {i} + absent");
        ckeq!(Some(a.additive_inverse()), el(p - i), "order {p}: -{i}");
        ckeq!(a * one, a, "order {p}: {i} * 1");
        ckeq!(one * a, a, "order {p}: 1 * {i}");
        if has_inv {
            let b = a.mult_inverse();
            ck!(a * b == one && b * a == one, "order {p}: inverse of {i} is {b:?}");
            ck!(e.contains(&b), "order {p}: inverse of {i} is not canonical: {b:?}");
        }
    }
    // random compositions of the operations stay canonical
    Ok(())
}
fn compose<F: Invertible + Debug + Eq>(p: u64, r: &mut Rng) -> Res {
    let one = F::one();
    let mut x = one;
    let mut k = 1u64;
    let mut trace = format!("p={p}: 1");
    let inv = |k: u64| (1..p).find(|j| j * k % p == 1).unwrap();
    let mut history = vec![(x, k)];
    for _ in 0..(4 + r.below(12)) {
        let (y, j) = history[r.below(history.len())];
        match r.below(4) {
            0 => {
                trace += &format!(" +{j}");
                match x + y {
                    None => {
                        ck!((k + j) % p == 0, "{trace} reported as zero");
                        x = one;
                        k = 1;
                    }
                    Some(z) => {
                        k = (k + j) % p;
                        ck!(k != 0, "{trace} is zero but reported as {z:?}");
                        x = z;
                    }
                }
            }
            1 => {
                trace += &format!(" *{j}");
                x = x * y;
                k = k * j % p;
            }
            2 => {
                trace += " neg";
                x = x.additive_inverse();
                k = p - k;
            }
            _ => {
                trace += " inv";
                x = x.mult_inverse();
                k = inv(k);
            }
        }
        let mut z = one;
        for _ in 1..k {
            z = (z + one).ok_or_else(|| format!("{k} ones are zero mod {p}"))?;
        }
        ckeq!(x, z, "{trace}");
        history.push((x, k));
    }
    Ok(Info { key: Some(hash_str(&trace)), sample: trace })
}

pub fn c01(r: &mut Rng, case: u64, _size: usize) -> Res {
    if case == 0 {
        field::<Z2>(2, true)?;
        field::<Z3>(3, true)?;
        field::<Z5>(5, true)?;
        field::<Z7>(7, true)?;
        field::<Z11>(11, true)?;
        field::<Z13>(13, true)?;
        return Ok(Info { key: Some(1), sample: "complete operation tables of the fields of order 2, 3, 5, 7, 11, 13".into() });
    }
    match r.below(6) {
        0 => compose::<Z2>(2, r),
        1 => compose::<Z3>(3, r),
        2 => compose::<Z5>(5, r),
        3 => compose::<Z7>(7, r),
        4 => compose::<Z11>(11, r),
        _ => compose::<Z13>(13, r),
    }
}

// ---------------------------------------------------------------- rationals
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
fn fits(x: i128) -> bool {
    x.abs() < (1i128 << 62)
}
/// the integer n != 0 as a sum/product of ones
fn int(n: i128) -> Q {
    let m = n.unsigned_abs();
    let one = Q::one();
    let mut x: Option<Q> = None;
    for b in (0..128 - m.leading_zeros()).rev() {
        if let Some(y) = x {
            x = y + y;
        }
        if m >> b & 1 == 1 {
            x = one + x;
        }
    }
    let x = x.expect("non-zero");
    if n < 0 { x.additive_inverse() } else { x }
}
/// n/d in lowest terms, d > 0
fn frac(n: i128, d: i128) -> Q {
    int(n) * int(d).mult_inverse()
}
pub fn c02(r: &mut Rng, _case: u64, size: usize) -> Res {
    let mag = 1 + (size as u32).min(40);
    let rnd = |r: &mut Rng, bits: u32| -> i128 {
        let b = 1 + r.below(bits as usize) as u32;
        let x = (r.next() % (1u64 << b)) as i128 + 1;
        if r.chance(1, 2) { -x } else { x }
    };
    let mk = |r: &mut Rng, m: u32| {
        let (n, d) = (rnd(r, m), rnd(r, m).abs());
        let g = gcd(n, d);
        (n / g, d / g)
    };
    let (mut n, mut d) = mk(r, mag);
    let mut x = frac(n, d);
    let mut trace = format!("{n}/{d}");
    let mut ops = 0;
    for _ in 0..(3 + r.below(8)) {
        let (m, e) = match r.below(6) {
            0 => (-n, d),
            1 => (d * n.signum(), n.abs()),
            2 => (n, d),
            _ => mk(r, mag),
        };
        let y = frac(m, e);
        // multiplication or sum of a term with itself or its relatives is exercised as well
        match r.below(5) {
            0 | 1 => {
                let g = gcd(d, e);
                let l = d / g * e;
                let (p, q) = (l / d * n, l / e * m);
                if !(fits(l) && fits(p) && fits(q) && fits(p + q)) {
                    continue;
                }
                trace += &format!(" + {m}/{e}");
                let s = x + y;
                let s2 = x + Some(y);
                ckeq!(s, s2, "{trace} through Option");
                if p + q == 0 {
                    ckeq!(s, None, "{trace} is zero");
                    break;
                }
                let h = gcd(p + q, l);
                n = (p + q) / h;
                d = l / h;
                match s {
                    None => return Err(format!("{trace} reported as zero, expected {n}/{d}")),
                    Some(s) => x = s,
                }
            }
            2 | 3 => {
                if !(fits(n * m) && fits(d * e)) {
                    continue;
                }
                trace += &format!(" * {m}/{e}");
                x = x * y;
                let h = gcd(n * m, d * e);
                (n, d) = (n * m / h, d * e / h);
            }
            4 => {
                if r.chance(1, 2) {
                    trace += " neg";
                    x = x.additive_inverse();
                    n = -n;
                } else {
                    trace += " inv";
                    x = x.mult_inverse();
                    (n, d) = (n.signum() * d, n.abs());
                }
            }
            _ => {}
        }
        ops += 1;
        ckeq!(x + None, Some(x), "{trace} + absent");
        ckeq!(x * Q::one(), x, "{trace} * 1");
        ckeq!(x, frac(n, d), "{trace}");
        ckeq!(x.mult_inverse().mult_inverse(), x, "double inverse of {trace}");
        ckeq!(format!("{:?}", x), format!("{:?}", frac(n, d)), "printed form of {trace}");
        let dbg: Vec<i128> = format!("{x:?}")
            .split(|c: char| !(c.is_ascii_digit() || c == '-'))
            .filter(|s| !s.is_empty())
            .filter_map(|s| s.parse().ok())
            .collect();
        if dbg.len() == 2 {
            ck!(dbg == [n, d], "{trace}: stored as {x:?}, lowest terms are {n}/{d}");
        }
    }
    Ok(Info { key: (ops > 0).then(|| hash_str(&trace)), sample: trace })
}
