@@file phlite/src/fields.rs fields
@@use
use crate::prelude::*;
use core::ops::{Add, Mul};
use crate::ints::*;
use vstd::std_specs::ops::*;
@@attr Z2 :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@attr ZP :: #[derive(Clone, Copy)]
@@attr Q :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]

@@inside NonZeroCoefficient
    spec fn valid_spec(self) -> bool;
    spec fn one_spec() -> Self;
    spec fn neg_spec(self) -> Self;
@@inside Invertible
    spec fn inv_spec(self) -> Self;
    spec fn inv_req(self) -> bool;

@@fn NonZeroCoefficient::one
@ret r
@spec
    ensures r == Self::one_spec(),
@@fn NonZeroCoefficient::additive_inverse
@ret r
@spec
    requires self.valid_spec(),
    ensures r == self.neg_spec(),
@@fn Invertible::mult_inverse
@ret r
@spec
    requires self.inv_req(),
    ensures r == self.inv_spec(),

## ---- Z2
@@fn <Z2 as Add<Z2>>::add
@@fn <Z2 as Mul<Z2>>::mul
@@fn <Z2 as Invertible>::mult_inverse
@@fn <Z2 as Add<Option<Z2>>>::add
@@fn <Z2 as NonZeroCoefficient>::one
@@fn <Z2 as NonZeroCoefficient>::additive_inverse
@@inside <Z2 as Invertible>
    open spec fn inv_spec(self) -> Self { Z2 }
    open spec fn inv_req(self) -> bool { true }
@@inside <Z2 as NonZeroCoefficient>
    open spec fn valid_spec(self) -> bool { true }
    open spec fn one_spec() -> Self { Z2 }
    open spec fn neg_spec(self) -> Self { Z2 }

## ---- ZP
@@fn <ZP as Add<ZP<P>>>::add
@start
    proof { lemma_zp_sum(P as int, self.0.v as int, rhs.0.v as int); }
@@fn <ZP as Add<Option<ZP<P>>>>::add
@@fn <ZP as Mul<ZP<P>>>::mul
@start
    proof { lemma_zp_prod(P as int, self.0.v as int, rhs.0.v as int); }
@@fn <ZP as NonZeroCoefficient>::one
@@fn <ZP as NonZeroCoefficient>::additive_inverse
@@fn <Z3 as Invertible>::mult_inverse
@start
    proof { lemma_inv(3, self.0.v as int); }
@@fn <Z5 as Invertible>::mult_inverse
@start
    proof { lemma_inv(5, self.0.v as int); }
@@fn <Z7 as Invertible>::mult_inverse
@start
    proof { lemma_inv(7, self.0.v as int); }
@@fn <Z11 as Invertible>::mult_inverse
@start
    proof { lemma_inv(11, self.0.v as int); }
@@fn <Z13 as Invertible>::mult_inverse
@start
    proof { lemma_inv(13, self.0.v as int); }
@@inside <ZP as NonZeroCoefficient>
    open spec fn valid_spec(self) -> bool { zp_valid(self) }
    open spec fn one_spec() -> Self { zp::<P>(1) }
    open spec fn neg_spec(self) -> Self { zp::<P>(P - self.0.v) }
@@inside <Z3 as Invertible>
    open spec fn inv_spec(self) -> Self { zp::<3>(zp_inv(3, self.0.v as int)) }
    open spec fn inv_req(self) -> bool { zp_valid(self) }
@@inside <Z5 as Invertible>
    open spec fn inv_spec(self) -> Self { zp::<5>(zp_inv(5, self.0.v as int)) }
    open spec fn inv_req(self) -> bool { zp_valid(self) }
@@inside <Z7 as Invertible>
    open spec fn inv_spec(self) -> Self { zp::<7>(zp_inv(7, self.0.v as int)) }
    open spec fn inv_req(self) -> bool { zp_valid(self) }
@@inside <Z11 as Invertible>
    open spec fn inv_spec(self) -> Self { zp::<11>(zp_inv(11, self.0.v as int)) }
    open spec fn inv_req(self) -> bool { zp_valid(self) }
@@inside <Z13 as Invertible>
    open spec fn inv_spec(self) -> Self { zp::<13>(zp_inv(13, self.0.v as int)) }
    open spec fn inv_req(self) -> bool { zp_valid(self) }

## ---- Q
@@fn Q::reduce
@ret r
@spec
    requires self.0 != 0, self.1 > 0, fits(self.0 as int), self.1 <= isize::MAX,
    ensures r == q_of(self.0 as int, self.1 as int), q_valid(r),
@start
    proof {
        lemma_red(self.0 as int, self.1 as int);
        let a = abs(self.0 as int); let b = self.1 as nat;
        lemma_gcd_divides(a, b);
        lemma_gcd_le(a, b);
        lemma_signed_div(self.0 as int, gcd(a, b) as int);
    }
@@fn <Q as Add>::add
@start
    proof {
        lemma_q_lcm(self, rhs);
        let g = gcd(self.1 as nat, rhs.1 as nat) as int;
        let l = q_lcm(self, rhs);
        let n = (l / self.1 as int) * self.0 + (l / rhs.1 as int) * rhs.0;
        if n != 0 { lemma_red_scale(g, n, l); }
        assert(g * n == 0 <==> n == 0) by (nonlinear_arith) requires g > 0;
    }
@@fn <Q as Add<Option<Q>>>::add
@@fn <Q as Mul>::mul
@start
    proof {
        assert(self.0 * rhs.0 != 0) by (nonlinear_arith) requires self.0 != 0, rhs.0 != 0;
        assert(self.1 * rhs.1 > 0) by (nonlinear_arith) requires self.1 > 0, rhs.1 > 0;
    }
@@fn <Q as NonZeroCoefficient>::one
@@fn <Q as NonZeroCoefficient>::additive_inverse
@@fn <Q as Invertible>::mult_inverse
@start
    proof {
        let (n, d) = (self.0 as int, self.1 as int);
        lemma_gcd_comm(abs(n), abs(d));
        let m = sgn(n) * d;
        assert(abs(m) == d && m != 0 && sgn(m) == sgn(n)) by (nonlinear_arith)
            requires d > 0, sgn(n) == 1 || sgn(n) == -1, abs(m) == (if m < 0 { -m } else { m }), m == sgn(n) * d,
                sgn(m) == (if m < 0 { -1int } else if m == 0 { 0int } else { 1int });
        lemma_red_id(m, abs(n) as int);
    }
@@inside <Q as NonZeroCoefficient>
    open spec fn valid_spec(self) -> bool { q_valid(self) }
    open spec fn one_spec() -> Self { Q(1, 1) }
    open spec fn neg_spec(self) -> Self { Q((-self.0) as isize, self.1) }
@@inside <Q as Invertible>
    open spec fn inv_spec(self) -> Self { q_of(sgn(self.0 as int) * self.1, abs(self.0 as int) as int) }
    open spec fn inv_req(self) -> bool { q_valid(self) }

@@append
// ------------------------------------------------------------ Z2 spec
impl AddSpecImpl<Z2> for Z2 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Z2) -> bool { true }
    open spec fn add_spec(self, rhs: Z2) -> Option<Z2> { None }
}
impl AddSpecImpl<Option<Z2>> for Z2 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Option<Z2>) -> bool { true }
    open spec fn add_spec(self, rhs: Option<Z2>) -> Option<Z2> { match rhs { None => Some(self), Some(r) => None } }
}
impl MulSpecImpl<Z2> for Z2 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Z2) -> bool { true }
    open spec fn mul_spec(self, rhs: Z2) -> Z2 { Z2 }
}
// ------------------------------------------------------------ ZP spec
// derived in the source: PartialEq, Eq
impl<const P: u8> vstd::std_specs::cmp::PartialEqSpecImpl for ZP<P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl<const P: u8> PartialEq for ZP<P> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl<const P: u8> Eq for ZP<P> {}
/// the orders the library provides
pub open spec fn p_ok(p: int) -> bool { p == 3 || p == 5 || p == 7 || p == 11 || p == 13 }
pub open spec fn zp_valid<const P: u8>(x: ZP<P>) -> bool { p_ok(P as int) && 0 < x.0.v < P }
/// the element with representative k
pub open spec fn zp<const P: u8>(k: int) -> ZP<P> { ZP(NonZeroU8 { v: k as u8 }) }
/// zero is the absence of an element
pub open spec fn zp_opt<const P: u8>(k: int) -> Option<ZP<P>> { if k == 0 { None } else { Some(zp::<P>(k)) } }
/// the multiplicative inverse as defined by arithmetic: the k in 0..p with k*x = 1 mod p
pub open spec fn is_inv(p: int, x: int, k: int) -> bool { 0 < k < p && (k * x) % p == 1 }
pub open spec fn zp_inv(p: int, x: int) -> int { choose|k: int| #[trigger] is_inv(p, x, k) }
impl<const P: u8> AddSpecImpl<ZP<P>> for ZP<P> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: ZP<P>) -> bool { zp_valid(self) && zp_valid(rhs) }
    open spec fn add_spec(self, rhs: ZP<P>) -> Option<ZP<P>> { zp_opt::<P>((self.0.v + rhs.0.v) % (P as int)) }
}
impl<const P: u8> AddSpecImpl<Option<ZP<P>>> for ZP<P> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Option<ZP<P>>) -> bool { zp_valid(self) && (rhs is Some ==> zp_valid(rhs->0)) }
    open spec fn add_spec(self, rhs: Option<ZP<P>>) -> Option<ZP<P>> { match rhs { None => Some(self), Some(r) => <ZP<P> as AddSpec<ZP<P>>>::add_spec(self, r) } }
}
impl<const P: u8> MulSpecImpl<ZP<P>> for ZP<P> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: ZP<P>) -> bool { zp_valid(self) && zp_valid(rhs) }
    open spec fn mul_spec(self, rhs: ZP<P>) -> ZP<P> { zp::<P>((self.0.v * rhs.0.v) % (P as int)) }
}
pub proof fn lemma_zp_sum(p: int, a: int, b: int)
    requires p_ok(p), 0 < a < p, 0 < b < p,
    ensures 0 < a + b <= 255, 0 <= (a + b) % p < p,
{}
pub proof fn lemma_zp_prod(p: int, a: int, b: int)
    requires p_ok(p), 0 < a < p, 0 < b < p,
    ensures 0 < a * b <= 255, 0 < (a * b) % p < p,
{
    assert(0 < a * b <= (p - 1) * (p - 1)) by (nonlinear_arith) requires 0 < a < p, 0 < b < p;
    assert((p - 1) * (p - 1) <= 144) by (nonlinear_arith) requires 3 <= p <= 13;
    // multiplying back by the inverse of a recovers b
    let j = zp_inv(p, a);
    lemma_inv(p, a);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(j, a * b, p);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(j * a, b, p);
    assert(j * (a * b) == (j * a) * b) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_small_mod(b as nat, p as nat);
    assert(((j * a) % p) * (b % p) == b);
    if (a * b) % p == 0 { assert((j % p) * 0 == 0); assert((0int) % p == 0); }
    vstd::arithmetic::div_mod::lemma_mod_bound(a * b, p);
}
// ------------------------------------------------------------ Q spec
/// non-zero, lowest terms, positive denominator, components negatable
pub open spec fn q_valid(x: Q) -> bool { lowest(x.0 as int, x.1 as int) && abs(x.0 as int) <= isize::MAX && x.1 <= isize::MAX }
pub open spec fn fits(n: int) -> bool { -isize::MAX <= n <= isize::MAX }
/// the element equal to the rational n/d (in lowest terms)
pub open spec fn q_of(n: int, d: int) -> Q { Q(red_n(n, d) as isize, red_d(n, d) as usize) }
/// exact value of x+y as a fraction over the product of the denominators
pub open spec fn q_sum_n(x: Q, y: Q) -> int { x.0 * y.1 + y.0 * x.1 }
pub open spec fn q_lcm(x: Q, y: Q) -> int { (x.1 as int / gcd(x.1 as nat, y.1 as nat) as int) * y.1 }
/// every intermediate value of the addition fits the machine integers
pub open spec fn q_add_fits(x: Q, y: Q) -> bool {
    let l = q_lcm(x, y);
    l <= isize::MAX && fits((l / x.1 as int) * x.0) && fits((l / y.1 as int) * y.0) && fits((l / x.1 as int) * x.0 + (l / y.1 as int) * y.0)
}
impl AddSpecImpl<Q> for Q {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Q) -> bool { q_valid(self) && q_valid(rhs) && q_add_fits(self, rhs) }
    open spec fn add_spec(self, rhs: Q) -> Option<Q> { if q_sum_n(self, rhs) == 0 { None } else { Some(q_of(q_sum_n(self, rhs), self.1 * rhs.1)) } }
}
impl AddSpecImpl<Option<Q>> for Q {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Option<Q>) -> bool { rhs is Some ==> <Q as AddSpec<Q>>::add_req(self, rhs->0) }
    open spec fn add_spec(self, rhs: Option<Q>) -> Option<Q> { match rhs { None => Some(self), Some(r) => <Q as AddSpec<Q>>::add_spec(self, r) } }
}
impl MulSpecImpl<Q> for Q {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Q) -> bool { q_valid(self) && q_valid(rhs) && fits(self.0 * rhs.0) && fits(self.1 * rhs.1) }
    open spec fn mul_spec(self, rhs: Q) -> Q { q_of(self.0 * rhs.0, self.1 * rhs.1) }
}
/// lcm facts
pub proof fn lemma_q_lcm(x: Q, y: Q)
    requires q_valid(x), q_valid(y),
    ensures ({ let g = gcd(x.1 as nat, y.1 as nat) as int; let l = q_lcm(x, y); let kx = x.1 as int / g; let ky = y.1 as int / g;
        &&& g > 0 && kx > 0 && ky > 0 && x.1 == g * kx && y.1 == g * ky
        &&& l == kx * y.1 && l == ky * x.1 && l > 0
        &&& l / x.1 as int == ky && l / y.1 as int == kx
        &&& g * l == x.1 * y.1
        &&& g * (ky * x.0 + kx * y.0) == q_sum_n(x, y) }),
{
    let a = x.1 as nat; let b = y.1 as nat;
    lemma_gcd_divides(a, b);
    lemma_gcd_quotients(a, b);
    let g = gcd(a, b) as int; let l = q_lcm(x, y); let kx = a as int / g; let ky = b as int / g;
    assert(kx * b == ky * a) by (nonlinear_arith) requires a == g * kx, b == g * ky;
    assert(l > 0) by (nonlinear_arith) requires l == kx * b, kx > 0, b > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l, a as int, ky, 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l, b as int, kx, 0);
    assert(g * l == a * b) by (nonlinear_arith) requires a == g * kx, l == kx * b;
    assert(g * (ky * x.0 + kx * y.0) == x.0 * y.1 + y.0 * x.1) by (nonlinear_arith) requires x.1 == g * kx, y.1 == g * ky;
}

/// every non-zero residue has exactly one inverse
pub proof fn lemma_inv(p: int, x: int)
    requires p_ok(p), 0 < x < p,
    ensures is_inv(p, x, zp_inv(p, x)), forall|k: int| #[trigger] is_inv(p, x, k) ==> k == zp_inv(p, x),
{
    lemma_inv_ex(p, x);
    let j = zp_inv(p, x);
    assert forall|k: int| #[trigger] is_inv(p, x, k) implies k == j by {
        // j = j*(k*x) = (j*x)*k = k mod p
        vstd::arithmetic::div_mod::lemma_mul_mod_noop(j, k * x, p);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop(j * x, k, p);
        assert(j * (k * x) == (j * x) * k) by (nonlinear_arith);
        let u = (j * x) % p; let w = (k * x) % p; let (kk, jj) = (k % p, j % p);
        assert(u == 1 && w == 1);
        assert(u * kk == kk && jj * w == jj) by (nonlinear_arith) requires u == 1, w == 1;
        vstd::arithmetic::div_mod::lemma_small_mod(j as nat, p as nat);
        vstd::arithmetic::div_mod::lemma_small_mod(k as nat, p as nat);
    }
}
pub proof fn lemma_inv_ex(p: int, x: int)
    requires p_ok(p), 0 < x < p,
    ensures exists|k: int| #[trigger] is_inv(p, x, k),
{
    if p == 3 {
        if x == 1 { assert(is_inv(3, 1, 1)); }
        if x == 2 { assert(is_inv(3, 2, 2)); }
    }
    if p == 5 {
        if x == 1 { assert(is_inv(5, 1, 1)); }
        if x == 2 { assert(is_inv(5, 2, 3)); }
        if x == 3 { assert(is_inv(5, 3, 2)); }
        if x == 4 { assert(is_inv(5, 4, 4)); }
    }
    if p == 7 {
        if x == 1 { assert(is_inv(7, 1, 1)); }
        if x == 2 { assert(is_inv(7, 2, 4)); }
        if x == 3 { assert(is_inv(7, 3, 5)); }
        if x == 4 { assert(is_inv(7, 4, 2)); }
        if x == 5 { assert(is_inv(7, 5, 3)); }
        if x == 6 { assert(is_inv(7, 6, 6)); }
    }
    if p == 11 {
        if x == 1 { assert(is_inv(11, 1, 1)); }
        if x == 2 { assert(is_inv(11, 2, 6)); }
        if x == 3 { assert(is_inv(11, 3, 4)); }
        if x == 4 { assert(is_inv(11, 4, 3)); }
        if x == 5 { assert(is_inv(11, 5, 9)); }
        if x == 6 { assert(is_inv(11, 6, 2)); }
        if x == 7 { assert(is_inv(11, 7, 8)); }
        if x == 8 { assert(is_inv(11, 8, 7)); }
        if x == 9 { assert(is_inv(11, 9, 5)); }
        if x == 10 { assert(is_inv(11, 10, 10)); }
    }
    if p == 13 {
        if x == 1 { assert(is_inv(13, 1, 1)); }
        if x == 2 { assert(is_inv(13, 2, 7)); }
        if x == 3 { assert(is_inv(13, 3, 9)); }
        if x == 4 { assert(is_inv(13, 4, 10)); }
        if x == 5 { assert(is_inv(13, 5, 8)); }
        if x == 6 { assert(is_inv(13, 6, 11)); }
        if x == 7 { assert(is_inv(13, 7, 2)); }
        if x == 8 { assert(is_inv(13, 8, 5)); }
        if x == 9 { assert(is_inv(13, 9, 3)); }
        if x == 10 { assert(is_inv(13, 10, 4)); }
        if x == 11 { assert(is_inv(13, 11, 6)); }
        if x == 12 { assert(is_inv(13, 12, 12)); }
    }
}

// ------------------------------------------------------------ the properties, over the contracts
/// C01: every operation stays within the canonical non-zero representatives, and the laws hold
pub proof fn theorem_zp<const P: u8>(x: ZP<P>, y: ZP<P>)
    requires zp_valid(x), zp_valid(y),
    ensures
        // addition is addition mod p, absent exactly when the sum is zero
        (x.0.v + y.0.v) % (P as int) == 0 <==> <ZP<P> as AddSpec<ZP<P>>>::add_spec(x, y) is None,
        <ZP<P> as AddSpec<ZP<P>>>::add_spec(x, y) is Some ==> ({
            let r = <ZP<P> as AddSpec<ZP<P>>>::add_spec(x, y)->0;
            zp_valid(r) && r.0.v == (x.0.v + y.0.v) % (P as int)
        }),
        <ZP<P> as AddSpec<Option<ZP<P>>>>::add_spec(x, None) == Some(x),
        // product
        zp_valid(<ZP<P> as MulSpec<ZP<P>>>::mul_spec(x, y)),
        <ZP<P> as MulSpec<ZP<P>>>::mul_spec(x, y).0.v == (x.0.v * y.0.v) % (P as int),
        <ZP<P> as MulSpec<ZP<P>>>::mul_spec(x, ZP::<P>::one_spec()) == x,
        // inverses
        zp_valid(x.neg_spec()) && (x.0.v + x.neg_spec().0.v) % (P as int) == 0,
        zp_valid(ZP::<P>::one_spec()),
        zp_valid(zp::<P>(zp_inv(P as int, x.0.v as int))),
        <ZP<P> as MulSpec<ZP<P>>>::mul_spec(zp::<P>(zp_inv(P as int, x.0.v as int)), x) == ZP::<P>::one_spec(),
{
    let p = P as int;
    lemma_zp_sum(p, x.0.v as int, y.0.v as int);
    lemma_zp_prod(p, x.0.v as int, y.0.v as int);
    lemma_inv(p, x.0.v as int);
    vstd::arithmetic::div_mod::lemma_small_mod(x.0.v as nat, p as nat);
    vstd::arithmetic::div_mod::lemma_mod_self_0(p);
    assert(x.0.v * 1 == x.0.v);
}
/// C01 for the two-element field
pub proof fn theorem_z2(x: Z2, y: Z2)
    ensures
        x == y,
        <Z2 as AddSpec<Z2>>::add_spec(x, y) is None,
        <Z2 as AddSpec<Option<Z2>>>::add_spec(x, None) == Some(x),
        <Z2 as MulSpec<Z2>>::mul_spec(x, y) == x,
{
}
/// C02: results are exact, in lowest terms, and equality of elements is equality of rationals
pub proof fn theorem_q(x: Q, y: Q)
    requires q_valid(x), q_valid(y),
    ensures
        x.0 * y.1 == y.0 * x.1 ==> x == y,
        <Q as AddSpec<Q>>::add_req(x, y) ==> {
            let s = <Q as AddSpec<Q>>::add_spec(x, y);
            &&& s is None <==> q_sum_n(x, y) == 0
            &&& s is Some ==> q_valid(s->0) && (s->0).0 * (x.1 * y.1) == q_sum_n(x, y) * (s->0).1
        },
        <Q as MulSpec<Q>>::mul_req(x, y) ==> {
            let r = <Q as MulSpec<Q>>::mul_spec(x, y);
            q_valid(r) && r.0 * (x.1 * y.1) == (x.0 * y.0) * r.1
        },
        q_valid(x.neg_spec()) && x.neg_spec().0 == -x.0 && x.neg_spec().1 == x.1,
        q_valid(x.inv_spec()) && x.inv_spec().0 * x.0 == x.inv_spec().1 * x.1,
        q_valid(Q::one_spec()),
{
    if x.0 * y.1 == y.0 * x.1 { lemma_lowest_unique(x.0 as int, x.1 as int, y.0 as int, y.1 as int); }
    assert(x.1 * y.1 > 0) by (nonlinear_arith) requires x.1 > 0, y.1 > 0;
    if <Q as AddSpec<Q>>::add_req(x, y) && q_sum_n(x, y) != 0 {
        lemma_q_lcm(x, y);
        let g = gcd(x.1 as nat, y.1 as nat) as int;
        let l = q_lcm(x, y);
        let n = (l / x.1 as int) * x.0 + (l / y.1 as int) * y.0;
        assert(n != 0) by (nonlinear_arith) requires g * n != 0;
        lemma_red_scale(g, n, l);
        lemma_red(n, l);
        lemma_red(q_sum_n(x, y), x.1 * y.1);
    }
    if <Q as MulSpec<Q>>::mul_req(x, y) {
        assert(x.0 * y.0 != 0) by (nonlinear_arith) requires x.0 != 0, y.0 != 0;
        lemma_red(x.0 * y.0, x.1 * y.1);
    }
    let (n, d) = (x.0 as int, x.1 as int);
    lemma_gcd_comm(abs(n), abs(d));
    let m = sgn(n) * d;
    assert(abs(m) == d && m != 0 && sgn(m) == sgn(n)) by (nonlinear_arith)
        requires d > 0, sgn(n) == 1 || sgn(n) == -1, abs(m) == (if m < 0 { -m } else { m }), m == sgn(n) * d,
            sgn(m) == (if m < 0 { -1int } else if m == 0 { 0int } else { 1int });
    lemma_red_id(m, abs(n) as int);
    assert(m * n == abs(n) * d) by (nonlinear_arith) requires m == sgn(n) * d, (n > 0 && sgn(n) == 1 && abs(n) == n) || (n < 0 && sgn(n) == -1 && abs(n) == -n);
    assert(abs(-n) == abs(n));
    assert(gcd(1, 1) == 1) by (compute);
}
