//! Deterministic random cases, an independent prime field, dense vectors.
use phlite::fields::{Invertible, NonZeroCoefficient};
use std::collections::BTreeMap;
use std::ops::{Add, Mul};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, self.below(i + 1));
        }
        v
    }
}

/// The prime field of order P, written independently of the library's own fields, so that the
/// other properties are judged over a field known to be exact.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TF<const P: u64>(u64);
impl<const P: u64> TF<P> {
    pub fn new(x: u64) -> Option<Self> {
        if x % P == 0 { None } else { Some(TF(x % P)) }
    }
    pub fn v(self) -> u64 {
        self.0
    }
    pub fn rand(r: &mut Rng) -> Self {
        TF(1 + r.next() % (P - 1))
    }
}
impl<const P: u64> Add for TF<P> {
    type Output = Option<Self>;
    fn add(self, o: Self) -> Option<Self> {
        Self::new(self.0 + o.0)
    }
}
impl<const P: u64> Add<Option<TF<P>>> for TF<P> {
    type Output = Option<Self>;
    fn add(self, o: Option<Self>) -> Option<Self> {
        match o {
            None => Some(self),
            Some(o) => self + o,
        }
    }
}
impl<const P: u64> Mul for TF<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        TF(self.0 * o.0 % P)
    }
}
pub fn inv_mod(x: u64, p: u64) -> u64 {
    let mut r = 1;
    let mut b = x % p;
    let mut e = p - 2;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
impl<const P: u64> NonZeroCoefficient for TF<P> {
    fn one() -> Self {
        TF(1)
    }
    fn additive_inverse(self) -> Self {
        TF(P - self.0)
    }
}
impl<const P: u64> Invertible for TF<P> {
    fn mult_inverse(self) -> Self {
        if P == 2 { self } else { TF(inv_mod(self.0, P)) }
    }
}

/// a linear combination: non-zero coefficients only
pub type Lin<R> = BTreeMap<R, u64>;
pub fn lin_add<R: Ord + Clone>(l: &mut Lin<R>, r: &R, c: u64, p: u64) {
    let e = l.entry(r.clone()).or_insert(0);
    *e = (*e + c) % p;
    if *e == 0 {
        l.remove(r);
    }
}
pub fn lin<const P: u64, R: Ord + Clone>(it: impl IntoIterator<Item = (TF<P>, R)>) -> Lin<R> {
    let mut l = Lin::new();
    for (c, r) in it {
        lin_add(&mut l, &r, c.v(), P);
    }
    l
}
pub fn lin_axpy<R: Ord + Clone>(l: &mut Lin<R>, c: u64, o: &Lin<R>, p: u64) {
    for (r, x) in o {
        lin_add(l, r, c * x % p, p);
    }
}

/// the size of the occasional large cases
pub const LARGE: usize = 1000;

pub struct Info {
    /// distinguishes cases; None when trivial
    pub key: Option<u64>,
    pub sample: String,
}
pub type Res = Result<Info, String>;

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b)); }
    }};
}
