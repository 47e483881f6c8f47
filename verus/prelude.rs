//! Models of the standard-library / dependency items the extracted code uses.
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- panics

pub fn vp_panic<T>() -> (r: T)
    requires false,
{
    proof { assert(false); }
    loop
        invariant false,
        decreases 0int,
    {}
}

pub fn vp_assert(b: bool)
    requires b,
{
}

// ---------------------------------------------------------------- NonZeroU8

/// Model of `core::num::NonZeroU8`.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU8 { pub v: u8 }

impl NonZeroU8 {
    pub fn new(x: u8) -> (r: Option<NonZeroU8>)
        ensures r == (if x == 0 { None::<NonZeroU8> } else { Some(NonZeroU8 { v: x }) }),
    { if x == 0 { None } else { Some(NonZeroU8 { v: x }) } }
    pub fn vp_get(self) -> (r: u8)
        ensures r == self.v,
    { self.v }
    pub fn into(self) -> (r: u8)
        ensures r == self.v,
    { self.v }
    pub fn checked_add(self, o: u8) -> (r: Option<NonZeroU8>)
        ensures r == (if self.v + o <= 255 { Some(NonZeroU8 { v: (self.v + o) as u8 }) } else { None::<NonZeroU8> }),
    { match self.v.checked_add(o) { Some(v) => Some(NonZeroU8 { v }), None => None } }
    pub fn checked_mul(self, o: NonZeroU8) -> (r: Option<NonZeroU8>)
        ensures r == (if self.v * o.v <= 255 { Some(NonZeroU8 { v: (self.v * o.v) as u8 }) } else { None::<NonZeroU8> }),
    { match self.v.checked_mul(o.v) { Some(v) => Some(NonZeroU8 { v }), None => None } }
}
pub fn vp_nzu8_new_unchecked(x: u8) -> (r: NonZeroU8)
    requires x != 0,
    ensures r.v == x,
{ NonZeroU8 { v: x } }

// ---------------------------------------------------------------- integers

pub trait VpEuclid: Sized {
    spec fn rem_req(self, m: Self) -> bool;
    spec fn rem_spec(self, m: Self) -> Self;
    spec fn div_spec(self, m: Self) -> Self;
    fn rem_e(self, m: Self) -> (r: Self) requires self.rem_req(m) ensures r == self.rem_spec(m);
    fn div_e(self, m: Self) -> (r: Self) requires self.rem_req(m) ensures r == self.div_spec(m);
}
macro_rules! euclid { ($($t:ty),*) => { verus!{ $(
impl VpEuclid for $t {
    open spec fn rem_req(self, m: Self) -> bool { m != 0 }
    open spec fn rem_spec(self, m: Self) -> Self { (self % m) as $t }
    open spec fn div_spec(self, m: Self) -> Self { (self / m) as $t }
    fn rem_e(self, m: Self) -> (r: Self) { self % m }
    fn div_e(self, m: Self) -> (r: Self) { self / m }
} )* } } }
euclid!(u8, usize, u32);
impl VpEuclid for i64 {
    open spec fn rem_req(self, m: Self) -> bool { m > 0 }
    open spec fn rem_spec(self, m: Self) -> Self { (self as int % m as int) as i64 }
    open spec fn div_spec(self, m: Self) -> Self { (self as int / m as int) as i64 }
    #[verifier::external_body]
    fn rem_e(self, m: Self) -> (r: Self) { self.rem_euclid(m) }
    #[verifier::external_body]
    fn div_e(self, m: Self) -> (r: Self) { self.div_euclid(m) }
}
pub fn vp_rem_euclid<T: VpEuclid>(a: T, m: T) -> (r: T)
    requires a.rem_req(m),
    ensures r == a.rem_spec(m),
{ a.rem_e(m) }
pub fn vp_div_euclid<T: VpEuclid>(a: T, m: T) -> (r: T)
    requires a.rem_req(m),
    ensures r == a.div_spec(m),
{ a.div_e(m) }

} // verus!
verus! {
use crate::ints::*;
/// `num::Integer` / inherent integer methods used on machine words
pub trait VpUsize: Sized {
    spec fn n(&self) -> nat;
    fn vp_gcd(&self, o: &Self) -> (r: Self) ensures r.n() == gcd(self.n(), o.n());
    fn vp_lcm(&self, o: &Self) -> (r: Self)
        requires self.n() > 0, o.n() > 0, (self.n() / gcd(self.n(), o.n())) * o.n() <= usize::MAX,
        ensures r.n() == (self.n() / gcd(self.n(), o.n())) * o.n();
}
impl VpUsize for usize {
    open spec fn n(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn vp_gcd(&self, o: &Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_lcm(&self, o: &Self) -> (r: Self) { unimplemented!() }
}
pub trait VpIsize: Sized {
    spec fn i(&self) -> int;
    fn vp_unsigned_abs(self) -> (r: usize) ensures r == abs(self.i());
    fn vp_signum(self) -> (r: isize) ensures r == sgn(self.i());
}
impl VpIsize for isize {
    open spec fn i(&self) -> int { *self as int }
    fn vp_unsigned_abs(self) -> (r: usize) { if self < 0 { if self == isize::MIN { 9223372036854775808usize } else { (-self) as usize } } else { self as usize } }
    fn vp_signum(self) -> (r: isize) { if self < 0 { -1 } else if self == 0 { 0 } else { 1 } }
}
} // verus!
verus! {
use vstd::arithmetic::power::*;
use vstd::std_specs::cmp::*;
/// inherent `pow` of machine words
pub trait VpPow: Sized {
    spec fn pw(self) -> int;
    fn vp_pow(self, e: u32) -> (r: Self)
        requires 0 <= pow(self.pw(), e as nat) <= usize::MAX,
        ensures r.pw() == pow(self.pw(), e as nat);
}
impl VpPow for usize {
    open spec fn pw(self) -> int { self as int }
    fn vp_pow(self, e: u32) -> (r: usize) {
        let mut k: u32 = 0;
        let mut x: usize = 1;
        proof { lemma_pow0(self as int); }
        while k < e
            invariant k <= e, x == pow(self as int, k as nat), 0 <= pow(self as int, e as nat) <= usize::MAX,
            decreases e - k,
        {
            proof {
                reveal(pow);
                assert(pow(self as int, (k + 1) as nat) == self * pow(self as int, k as nat));
                if self == 0 { assert(self * x == 0) by (nonlinear_arith) requires self == 0; }
                else {
                    lemma_pow_increases(self as nat, (k + 1) as nat, e as nat);
                }
                assert(x * self == self * x) by (nonlinear_arith);
            }
            x = x * self;
            k = k + 1;
        }
        x
    }
}
pub open spec fn vmax<T: Ord>(a: T, b: T) -> T { if crate::lawful::leq(a, b) { b } else { a } }
/// `Ord::max`
pub fn vp_max<T: Ord>(a: T, b: T) -> (r: T)
    requires T::obeys_cmp_spec(),
    ensures r == vmax(a, b),
{ match a.cmp(&b) { core::cmp::Ordering::Greater => a, _ => b } }
/// `vec![x; n]`
#[verifier::external_body]
pub fn vp_vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x || call_ensures(T::clone, (&x,), r@[i]),
{ vec![x; n] }
pub uninterp spec fn f64_zero() -> f64;
pub uninterp spec fn f64_inf() -> f64;
/// the literals `0.0` and `0 as f64`
#[verifier::external_body]
pub fn vp_f64_zero() -> (r: f64)
    ensures r == f64_zero(),
{ 0.0 }
/// comparison of floats (IEEE)
pub uninterp spec fn f64_lt(x: f64, y: f64) -> bool;
pub uninterp spec fn f64_le(x: f64, y: f64) -> bool;
pub uninterp spec fn f64_eq(x: f64, y: f64) -> bool;
#[verifier::external_body]
pub fn vp_f64_lt(x: f64, y: f64) -> (r: bool)
    ensures r == f64_lt(x, y),
{ x < y }
#[verifier::external_body]
pub fn vp_f64_le(x: f64, y: f64) -> (r: bool)
    ensures r == f64_le(x, y),
{ x <= y }
#[verifier::external_body]
pub fn vp_f64_eq(x: f64, y: f64) -> (r: bool)
    ensures r == f64_eq(x, y),
{ x == y }
/// `f64::INFINITY`
#[verifier::external_body]
pub fn vp_f64_inf() -> (r: f64)
    ensures r == f64_inf(),
{ f64::INFINITY }
} // verus!
