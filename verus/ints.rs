//! Integer lemmas: gcd, lcm, lowest terms.
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {

global size_of usize == 8;

pub open spec fn gcd(a: nat, b: nat) -> nat
    decreases b,
{
    if b == 0 { a } else { gcd(b, a % b) }
}
pub open spec fn abs(n: int) -> nat { if n < 0 { (-n) as nat } else { n as nat } }
pub open spec fn sgn(n: int) -> int { if n < 0 { -1 } else if n == 0 { 0 } else { 1 } }

pub open spec fn divides(d: nat, a: nat) -> bool { exists|k: nat| a == #[trigger] (d * k) }

pub proof fn lemma_mod_scale(k: nat, a: nat, b: nat)
    requires k > 0, b > 0,
    ensures (k * a) % (k * b) == k * (a % b), k * b > 0,
{
    let q = (a / b) as int;
    let r = (a % b) as int;
    lemma_fundamental_div_mod(a as int, b as int);
    lemma_mul_strictly_positive(k as int, b as int);
    assert(k * a == q * (k * b) + k * r) by (nonlinear_arith) requires a == b * q + r;
    assert(0 <= k * r < k * b) by (nonlinear_arith) requires 0 <= r < b, k > 0;
    lemma_fundamental_div_mod_converse((k * a) as int, (k * b) as int, q, (k * r) as int);
}

pub proof fn lemma_gcd_pos(a: nat, b: nat)
    requires a > 0 || b > 0,
    ensures gcd(a, b) > 0,
    decreases b,
{
    if b != 0 { lemma_gcd_pos(b, a % b); }
}

pub proof fn lemma_gcd_scale(k: nat, a: nat, b: nat)
    requires k > 0,
    ensures gcd(k * a, k * b) == k * gcd(a, b),
    decreases b,
{
    if b == 0 {
        assert(k * b == 0);
    } else {
        lemma_mod_scale(k, a, b);
        lemma_gcd_scale(k, b, a % b);
        assert(gcd(k * a, k * b) == gcd(k * b, (k * a) % (k * b)));
    }
}

/// gcd divides both arguments (as exact quotients)
pub proof fn lemma_gcd_divides(a: nat, b: nat)
    requires a > 0 || b > 0,
    ensures
        gcd(a, b) > 0,
        a % gcd(a, b) == 0,
        b % gcd(a, b) == 0,
        a == gcd(a, b) * (a / gcd(a, b)),
        b == gcd(a, b) * (b / gcd(a, b)),
    decreases b,
{
    lemma_gcd_pos(a, b);
    let g = gcd(a, b);
    if b == 0 {
        assert(a % a == 0) by { lemma_mod_self_0(a as int); }
        assert(a / a == 1) by { lemma_div_by_self(a as int); }
        assert(0nat % a == 0) by { lemma_small_mod(0, a); }
        lemma_fundamental_div_mod(b as int, g as int);
        assert(g * 1 == g);
    } else {
        lemma_gcd_divides(b, a % b);
        let q = (a / b) as int;
        let kb = (b / g) as int;
        let kr = ((a % b) / g) as int;
        lemma_fundamental_div_mod(a as int, b as int);
        assert(a == g * (kb * q + kr)) by (nonlinear_arith)
            requires a == b * q + (a % b) as int, b == g * kb, (a % b) as int == g * kr;
        assert(a == (kb * q + kr) * g + 0) by (nonlinear_arith) requires a == g * (kb * q + kr);
        lemma_fundamental_div_mod_converse(a as int, g as int, kb * q + kr, 0);
    }
}

/// every common divisor divides the gcd
pub proof fn lemma_gcd_greatest(a: nat, b: nat, d: nat)
    requires d > 0, divides(d, a), divides(d, b),
    ensures divides(d, gcd(a, b)),
    decreases b,
{
    if b != 0 {
        let ka = choose|k: nat| a == #[trigger] (d * k);
        let kb = choose|k: nat| b == #[trigger] (d * k);
        lemma_fundamental_div_mod(a as int, b as int);
        let q = (a / b) as int;
        let r = (a % b) as int;
        assert(r == d * (ka - kb * q)) by (nonlinear_arith)
            requires a == b * q + r, a == d * ka, b == d * kb;
        assert(ka - kb * q >= 0) by (nonlinear_arith)
            requires r == d * (ka - kb * q), r >= 0, d > 0;
        assert(r == d * ((ka - kb * q) as nat));
        lemma_gcd_greatest(b, a % b, d);
    }
}

/// the quotients by the gcd are coprime
pub proof fn lemma_gcd_quotients(a: nat, b: nat)
    requires a > 0, b > 0,
    ensures gcd(a / gcd(a, b), b / gcd(a, b)) == 1, a / gcd(a, b) > 0, b / gcd(a, b) > 0,
{
    lemma_gcd_divides(a, b);
    let g = gcd(a, b);
    let x = a / g;
    let y = b / g;
    lemma_gcd_scale(g, x, y);
    assert(g * gcd(x, y) == g);
    assert(gcd(x, y) == 1) by (nonlinear_arith) requires g * gcd(x, y) == g, g > 0;
    assert(x > 0) by (nonlinear_arith) requires a == g * x, a > 0;
    assert(y > 0) by (nonlinear_arith) requires b == g * y, b > 0;
}

// ------------------------------------------------------------ lowest terms

/// numerator of n/d in lowest terms
pub open spec fn red_n(n: int, d: int) -> int { sgn(n) * (abs(n) / gcd(abs(n), abs(d))) }
/// denominator of n/d in lowest terms
pub open spec fn red_d(n: int, d: int) -> int { (abs(d) / gcd(abs(n), abs(d))) as int }
/// n/d is in lowest terms, non-zero, positive denominator
pub open spec fn lowest(n: int, d: int) -> bool { n != 0 && d > 0 && gcd(abs(n), abs(d)) == 1 }

pub proof fn lemma_red(n: int, d: int)
    requires n != 0, d > 0,
    ensures
        lowest(red_n(n, d), red_d(n, d)),
        red_n(n, d) * d == n * red_d(n, d),
        abs(red_n(n, d)) <= abs(n),
        0 < red_d(n, d) <= d,
        sgn(red_n(n, d)) == sgn(n),
{
    let a = abs(n);
    let b = abs(d);
    let g = gcd(a, b);
    lemma_gcd_divides(a, b);
    lemma_gcd_quotients(a, b);
    let x = (a / g) as int;
    let y = (b / g) as int;
    let s = sgn(n);
    assert(abs(s * x) == x) by (nonlinear_arith) requires x > 0, s == 1 || s == -1, abs(s * x) == (if s * x < 0 { -(s * x) } else { s * x });
    assert((s * x) * d == n * y) by (nonlinear_arith) requires a == g * x, d == g * y, n == s * a;
    assert(x <= a) by (nonlinear_arith) requires a == g * x, g >= 1, x > 0;
    assert(y <= b) by (nonlinear_arith) requires b == g * y, g >= 1, y > 0;
    assert(s * x != 0) by (nonlinear_arith) requires x > 0, s == 1 || s == -1;
    assert(sgn(s * x) == s) by (nonlinear_arith) requires x > 0, s == 1 || s == -1, sgn(s * x) == (if s * x < 0 { -1int } else if s * x == 0 { 0int } else { 1int });
}

pub proof fn lemma_red_scale(k: int, n: int, d: int)
    requires k > 0, n != 0, d > 0,
    ensures red_n(k * n, k * d) == red_n(n, d), red_d(k * n, k * d) == red_d(n, d), k * n != 0, k * d > 0,
{
    let a = abs(n);
    let b = abs(d);
    assert(k * d > 0) by (nonlinear_arith) requires k > 0, d > 0;
    assert(k * n != 0) by (nonlinear_arith) requires k > 0, n != 0;
    assert(sgn(k * n) == sgn(n) && abs(k * n) == k * a) by {
        if n > 0 { assert(k * n > 0) by (nonlinear_arith) requires k > 0, n > 0; }
        else {
            assert(k * n < 0) by (nonlinear_arith) requires k > 0, n < 0;
            assert(-(k * n) == k * (-n)) by (nonlinear_arith);
        }
    }
    assert(abs(k * d) == k * b);
    lemma_gcd_scale(k as nat, a, b);
    let g = gcd(a, b);
    lemma_gcd_divides(a, b);
    let x = (a / g) as int;
    let y = (b / g) as int;
    assert(k * g > 0) by (nonlinear_arith) requires k > 0, g > 0;
    assert(k * a == x * (k * g) + 0) by (nonlinear_arith) requires a == g * x;
    assert(k * b == y * (k * g) + 0) by (nonlinear_arith) requires b == g * y;
    lemma_fundamental_div_mod_converse(k * a, k * g, x, 0);
    lemma_fundamental_div_mod_converse(k * b, k * g, y, 0);
}

/// values in lowest terms are equal exactly when the rationals are
pub proof fn lemma_lowest_unique(n: int, d: int, m: int, e: int)
    requires lowest(n, d), lowest(m, e), n * e == m * d,
    ensures n == m, d == e,
{
    // n/d == (n*e)/(d*e) == (m*d)/(e*d) == m/e
    lemma_red_scale(e, n, d);
    lemma_red_scale(d, m, e);
    assert(e * n == d * m) by (nonlinear_arith) requires n * e == m * d;
    assert(e * d == d * e) by (nonlinear_arith);
    assert(abs(n) / 1 == abs(n));
    assert(abs(m) / 1 == abs(m));
    assert(abs(d) / 1 == abs(d));
    assert(abs(e) / 1 == abs(e));
    assert(red_n(n, d) == n);
    assert(red_n(m, e) == m);
    assert(red_d(n, d) == d);
    assert(red_d(m, e) == e);
}

pub proof fn lemma_gcd_le(a: nat, b: nat)
    requires b > 0,
    ensures 0 < gcd(a, b) <= b,
{
    lemma_gcd_divides(a, b);
    let g = gcd(a, b); let k = b / g;
    assert(g <= b) by (nonlinear_arith) requires b == g * k, b > 0;
}

/// truncating and Euclidean division agree on exact quotients
pub proof fn lemma_signed_div(n: int, g: int)
    requires g > 0, n != 0, abs(n) as int % g == 0,
    ensures n / g == sgn(n) * (abs(n) as int / g), n % g == 0,
{
    let a = abs(n) as int;
    lemma_fundamental_div_mod(a, g);
    let x = a / g;
    assert(n == (sgn(n) * x) * g + 0) by (nonlinear_arith) requires a == g * x, (n == a && sgn(n) == 1) || (n == -a && sgn(n) == -1);
    lemma_fundamental_div_mod_converse(n, g, sgn(n) * x, 0);
}

pub proof fn lemma_red_id(n: int, d: int)
    requires lowest(n, d),
    ensures red_n(n, d) == n, red_d(n, d) == d,
{
    assert(abs(n) / 1 == abs(n));
    assert(abs(d) / 1 == abs(d));
    assert(sgn(n) * abs(n) == n) by (nonlinear_arith) requires (n > 0 && sgn(n) == 1 && abs(n) == n) || (n < 0 && sgn(n) == -1 && abs(n) == -n);
}

pub proof fn lemma_gcd_comm(a: nat, b: nat)
    ensures gcd(a, b) == gcd(b, a),
{
    if a == 0 || b == 0 {
        if a == 0 && b != 0 { assert(0nat % b == 0) by { lemma_small_mod(0, b); } assert(gcd(b, 0) == b); assert(gcd(a, b) == gcd(b, 0)); }
        if b == 0 && a != 0 { assert(0nat % a == 0) by { lemma_small_mod(0, a); } assert(gcd(a, 0) == a); assert(gcd(b, a) == gcd(a, 0)); }
    } else if a < b {
        lemma_small_mod(a, b);
        assert(gcd(a, b) == gcd(b, a));
    } else if b < a {
        lemma_small_mod(b, a);
        assert(gcd(b, a) == gcd(a, b));
    }
}

} // verus!
