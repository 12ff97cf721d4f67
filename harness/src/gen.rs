//! Structured generators of binary256 bit patterns.
#![allow(dead_code)]
use crate::dict;
use crate::mp::*;
use crate::rng::Rng;

/// 236-bit fraction with structure.
pub fn frac(r: &mut Rng) -> B {
    let mask = |b: B| (b.0 & HI_FRAC_MASK, b.1);
    if r.chance(1, 48) {
        if let Some(b) = dict_frac(r) {
            return b;
        }
    }
    match r.below(14) {
        0..=3 => mask((r.u128(), r.u128())),
        4 => (0, 0),
        5 => (HI_FRAC_MASK, u128::MAX),
        6 => {
            // a few bits
            let mut b = (0u128, 0u128);
            for _ in 0..r.range(1, 4) {
                let s = shl256((0, 1), r.below(236) as u32);
                b = (b.0 | s.0, b.1 | s.1);
            }
            b
        }
        7 => {
            // all ones but a few bits
            let mut b = (HI_FRAC_MASK, u128::MAX);
            for _ in 0..r.range(1, 3) {
                let s = shl256((0, 1), r.below(236) as u32);
                b = (b.0 & !s.0, b.1 & !s.1);
            }
            b
        }
        8 => {
            // runs of zeros and ones
            let mut b = (0u128, 0u128);
            let mut pos = 0u32;
            let mut one = r.bool();
            while pos < 236 {
                let len = 1 + r.below(90) as u32;
                if one {
                    for i in pos..(pos + len).min(236) {
                        let s = shl256((0, 1), i);
                        b = (b.0 | s.0, b.1 | s.1);
                    }
                }
                pos += len;
                one = !one;
            }
            b
        }
        9 => {
            // random top bits, zero tail
            let k = 1 + r.below(235) as u32;
            let b = mask((r.u128(), r.u128()));
            shl256(shr256(b, k), k)
        }
        10 => {
            // zero top, random tail
            let k = 1 + r.below(235) as u32;
            shr256(mask((r.u128(), r.u128())), k)
        }
        11 => {
            // word boundaries
            let hs = [0, HI_FRAC_MASK, 1, 1 << (HI_FRAC - 1), HI_FRAC_MASK - 1];
            let ls = [0, u128::MAX, 1, 1 << 127, u128::MAX - 1, 1 << 64];
            let h = if r.bool() { *r.pick(&hs) } else { r.u128() & HI_FRAC_MASK };
            let l = if r.bool() { *r.pick(&ls) } else { r.u128() };
            (h, l)
        }
        12 => (0, r.below(64) as u128),
        _ => {
            let d = r.range(1, 64) as u128;
            (HI_FRAC_MASK, u128::MAX - d)
        }
    }
}

/// Fraction made from a literal of the code under test.
fn dict_frac(r: &mut Rng) -> Option<B> {
    let b = dict::wide(r)?;
    let b = match r.below(4) {
        // in place
        0 => b,
        1 => {
            if r.bool() {
                (r.u128(), b.1)
            } else {
                (b.0, r.u128())
            }
        }
        // as significand with its leading bit as the hidden one
        _ if b == (0, 0) => b,
        _ => {
            let lz = lz256(b);
            if lz <= 19 {
                shr256(b, 19 - lz)
            } else {
                shl256(b, lz - 19)
            }
        }
    };
    let b = if r.chance(1, 3) { add_bits((b.0 & HI_FRAC_MASK, b.1), r.range(-2, 2)) } else { b };
    Some((b.0 & HI_FRAC_MASK, b.1))
}
/// Exponent distance: `lo..=hi`, or a number that occurs in the code.
pub fn dist(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    if r.chance(1, 24) {
        if let Some(d) = dict::small(r) {
            return if lo < 0 && r.bool() { -d } else { d };
        }
    }
    r.range(lo, hi)
}

/// Biased exponent, biased towards boundaries.
pub fn bexp(r: &mut Rng) -> u32 {
    if r.chance(1, 32) {
        if let Some(d) = dict::small(r) {
            let v = match r.below(6) {
                0 => d,
                1 => 524286 - d,
                2 | 3 => BIAS + d,
                _ => BIAS - d,
            };
            return v.clamp(0, 524286) as u32;
        }
    }
    let v: i64 = match r.below(16) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(0, 480),
        3 => r.range(524286 - 480, 524286),
        4 => r.range(524283, 524286),
        5..=8 => BIAS + r.range(-300, 300),
        9 => BIAS + r.range(-3, 3),
        10 => BIAS + r.range(230, 262),
        11 => BIAS / 2 + r.range(-300, 300),
        12 => BIAS + BIAS / 2 + r.range(-300, 300),
        _ => r.range(0, 524286),
    };
    v.clamp(0, 524286) as u32
}

pub fn make(neg: bool, be: u32, f: B) -> B {
    (
        ((neg as u128) << 127) | ((be as u128) << HI_FRAC) | (f.0 & HI_FRAC_MASK),
        f.1,
    )
}

/// Special values, zero and infinities included, NaNs with any payload.
pub fn special(r: &mut Rng) -> B {
    let n = r.bool();
    let s = if n { HI_SIGN } else { 0 };
    let b = match r.below(12) {
        0 | 1 => ZERO,
        2 | 3 => INF,
        4 => NAN,
        5 => {
            // any NaN
            let mut f = frac(r);
            if f == (0, 0) {
                f = (0, 1);
            }
            (INF.0 | f.0, f.1)
        }
        6 => ONE,
        7 => MAXV,
        8 => MIN_SUB,
        9 => MIN_NORM,
        10 => (HI_FRAC_MASK, u128::MAX), // largest subnormal
        _ => (ONE.0 + (1 << HI_FRAC), 0),
    };
    (b.0 | s, b.1)
}

/// Finite non-zero value.
pub fn finite(r: &mut Rng) -> B {
    loop {
        let n = r.bool();
        let be = bexp(r);
        let f = frac(r);
        let b = match r.below(12) {
            0 => small_int(r),
            _ => make(n, be, f),
        };
        if is_fin_nz(b) {
            return b;
        }
    }
}
pub fn small_int(r: &mut Rng) -> B {
    let bits = r.below(130) as u32;
    let v = if bits == 0 {
        1
    } else if bits >= 128 {
        r.u128() | (1 << 127)
    } else {
        (r.u128() >> (128 - bits)).max(1)
    };
    let b = from_u256((0, v), 0);
    if r.bool() {
        neg(b)
    } else {
        b
    }
}
/// Any value: mostly finite, a few specials.
pub fn value(r: &mut Rng) -> B {
    if r.chance(1, 16) {
        special(r)
    } else {
        finite(r)
    }
}
/// Any bit pattern.
pub fn pattern(r: &mut Rng) -> B {
    match r.below(4) {
        0 => (r.u128(), r.u128()),
        1 => special(r),
        _ => value(r),
    }
}
pub fn pos(b: B) -> B {
    abs(b)
}

/// v * 2^e as bits (v < 2^237, result must be normal).
pub fn from_u256(v: B, e: i64) -> B {
    if v == (0, 0) {
        return ZERO;
    }
    let lz = lz256(v);
    let msb = 255 - lz as i64;
    assert!(msb <= 236);
    let s = shl256(v, (236 - msb) as u32);
    let ex = e + msb + BIAS;
    assert!(ex >= 1 && ex <= 524286);
    make(false, ex as u32, s)
}
/// sig (any 1..=237 bits) * 2^q, rounded by truncation if subnormal; None if
/// out of range.
pub fn compose(neg: bool, v: B, q: i64) -> Option<B> {
    if v == (0, 0) {
        return None;
    }
    let msb = 255 - lz256(v) as i64;
    if msb > 236 {
        return None;
    }
    let e = q + msb;
    if e > EMAX || e < ETINY {
        return None;
    }
    if e >= EMIN {
        let s = shl256(v, (236 - msb) as u32);
        Some(make(neg, (e + BIAS) as u32, s))
    } else {
        // quantum must be ETINY
        let d = q - ETINY;
        let s = if d >= 0 { shl256(v, d as u32) } else { shr256(v, (-d) as u32) };
        if s == (0, 0) {
            return None;
        }
        Some(make(neg, 0, s))
    }
}
/// Replace the exponent so that the leading bit has exponent e (normal range
/// clamped).
pub fn with_exp(b: B, e: i64) -> B {
    let be = (e + BIAS).clamp(1, 524286) as u32;
    make(is_neg(b), be, (b.0 & HI_FRAC_MASK, b.1))
}
/// Random odd integer with exactly n bits (1 <= n <= 237).
pub fn odd_bits(r: &mut Rng, n: u32) -> B {
    let v = (r.u128(), r.u128());
    let v = shr256(v, 256 - n);
    let top = shl256((0, 1), n - 1);
    (v.0 | top.0, v.1 | top.1 | 1)
}

/// Full product of two 128-bit integers as (high, low).
fn mul128(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = u64::MAX as u128;
    let (a1, a0) = (a >> 64, a & M);
    let (b1, b0) = (b >> 64, b & M);
    let t = a0 * b0;
    let u = a1 * b0 + (t >> 64);
    let w = a0 * b1 + (u & M);
    (a1 * b1 + (u >> 64) + (w >> 64), (w << 64) | (t & M))
}
/// a * b mod 2^256
fn wmul(a: B, b: B) -> B {
    let (h, l) = mul128(a.1, b.1);
    (
        h.wrapping_add(a.0.wrapping_mul(b.1)).wrapping_add(a.1.wrapping_mul(b.0)),
        l,
    )
}
/// a - b mod 2^256
fn wsub(a: B, b: B) -> B {
    let (l, c) = a.1.overflowing_sub(b.1);
    (a.0.wrapping_sub(b.0).wrapping_sub(c as u128), l)
}
/// Inverse of the odd number a mod 2^256.
fn inv256(a: B) -> B {
    let mut x = a;
    for _ in 0..7 {
        x = wmul(x, wsub((0, 2), wmul(a, x)));
    }
    x
}
fn low_bits(a: B, k: u32) -> B {
    shr256(shl256(a, 256 - k), 256 - k)
}
/// A number mod 2^k (236 <= k <= 238) which is half of 2^k or zero, more or
/// less a small difference.
fn close_tail(r: &mut Rng, k: u32) -> B {
    let w = r.range(1, 140) as u32;
    let d = match r.below(4) {
        0 => (0, r.below(40) as u128),
        1 => low_bits((r.u128(), r.u128()), w),
        2 => shl256((0, 1), w),
        _ => (0, r.below(1 << 20) as u128),
    };
    let t = if r.chance(3, 4) { shl256((0, 1), k - 1) } else { (0, 0) };
    let t = if r.bool() { wsub(t, d) } else { wsub(t, wsub((0, 0), d)) };
    low_bits(t, k)
}
/// Two full significands whose product is extremely close to a halfway
/// point or to a representable value.
fn near_tie_mul(r: &mut Rng) -> (B, B) {
    let a = if r.chance(1, 3) {
        let v = sig(r);
        (v.0, v.1 | 1)
    } else {
        odd_bits(r, 237)
    };
    let k = r.range(236, 237) as u32;
    let b = low_bits(wmul(close_tail(r, k), inv256(a)), k);
    let b = if k == 236 { (b.0 | 1 << HI_FRAC, b.1) } else { b };
    if b == (0, 0) {
        return (a, a);
    }
    (a, b)
}
/// The same for products that lose more than their lower half: about
/// (2m + 1) * 2^(k - 1), with k bits to be discarded.
fn near_tie_mul_sub(r: &mut Rng) -> (B, B, u32) {
    let a = sig(r);
    let k = r.range(240, 472) as u32;
    let n = (474 - k).min(237);
    let m = Mpz::from_b(odd_bits(r, n)).shl(k as u64 - 1);
    let mut b = m.div_rem(&Mpz::from_b(a)).0.to_b();
    if r.bool() {
        b = add_bits(b, 1);
    }
    if lz256(b) < 19 || b == (0, 0) {
        return (a, a, k);
    }
    (a, b, k)
}
/// A significand whose square is extremely close to a halfway point or to a
/// representable value.
fn near_tie_sq(r: &mut Rng) -> B {
    let k = r.range(236, 237) as u32;
    // the tail of an odd square is 1 mod 8
    let t = close_tail(r, k);
    let t = (t.0, t.1 & !7 | 1);
    let mut y = (0, 1);
    for _ in 0..9 {
        let z = wsub((0, 3), wmul(t, wmul(y, y)));
        y = wmul(y, shr256(z, 1));
    }
    let mut x = wmul(t, y);
    if r.bool() {
        x = wsub((0, 0), x);
    }
    let x = low_bits(x, k - 1);
    // adding 2^(k-1) does not change the square mod 2^k
    let x = if k == 237 || r.bool() { add_b(x, shl256((0, 1), k - 1)) } else { x };
    let x = if k == 236 { (x.0 | 1 << HI_FRAC, x.1) } else { x };
    x
}
fn add_b(a: B, b: B) -> B {
    wsub(a, wsub((0, 0), b))
}
/// Dividend and divisor whose quotient is next to a number of n bits, the
/// last of which is set (n = 238: halfway between two values): the remainder
/// is a few units, as no random search would find it. Also returns by how
/// much the exponent of the quotient is smaller than the difference of the
/// exponents.
fn near_tie_div(r: &mut Rng, n: u32) -> Option<(B, B, i64)> {
    for _ in 0..12 {
        let w = r.range(1, 100) as u32;
        let d = match r.below(3) {
            0 => low_bits((0, r.u128()), w),
            1 => (0, 1 << w),
            _ => (0, 1 + r.below(40) as u128),
        };
        let up = r.bool();
        let q = if n > 237 {
            let v = odd_bits(r, 237);
            (v.0 << 1 | v.1 >> 127, v.1 << 1 | 1)
        } else {
            odd_bits(r, n)
        };
        let k = if r.bool() { n } else { n - 1 };
        // y = -+d / q mod 2^k, the rest of y is free
        let t = if up { d } else { wsub((0, 0), d) };
        let mut y = low_bits(wmul(wsub((0, 0), t), inv256(q)), k);
        if k < 236 {
            let f = sig(r);
            y = add_b(y, shl256(shr256(f, k), k));
        } else if k == 236 {
            y = (y.0 | 1 << HI_FRAC, y.1);
        }
        if 255 - lz256(y) as i64 != 236 {
            continue;
        }
        let p = Mpz::from_b(q).mul(&Mpz::from_b(y));
        let d = Mpz::from_b(d);
        let p = if up {
            p.add(&d)
        } else if p.bits() > d.bits() {
            p.sub(&d)
        } else {
            continue;
        };
        let (x, rest) = p.div_rem(&Mpz::from_u(1).shl(k as u64));
        if !rest.is_zero() || x.bits() != 237 {
            continue;
        }
        let x = x.to_b();
        return Some((x, y, (x < y) as i64));
    }
    None
}
/// Operand of sqrt whose root is next to a halfway point between two values
/// (a number of 238 bits): the square of that number ends in a tiny number.
fn near_tie_sqrt(r: &mut Rng) -> Option<B> {
    for _ in 0..12 {
        let k = r.range(238, 239) as u32;
        let w = r.range(4, 100) as u32;
        let t = match r.below(3) {
            0 => low_bits((0, r.u128()), w),
            1 => (0, 1 << w),
            _ => (0, r.below(64) as u128),
        };
        let t = (t.0, t.1 & !7 | 1);
        let up = r.bool();
        // 1 mod 8 in any case
        let t = if up { t } else { wsub((0, 2), t) };
        let mut y = (0, 1);
        for _ in 0..9 {
            let z = wsub((0, 3), wmul(t, wmul(y, y)));
            y = wmul(y, shr256(z, 1));
        }
        let mut n = wmul(t, y);
        if r.bool() {
            n = wsub((0, 0), n);
        }
        // n and n + 2^(k-1) are roots mod 2^k
        let mut n = low_bits(n, k - 1);
        if k == 238 {
            n = add_b(n, shl256((0, 1), 237));
        }
        if 255 - lz256(n) as i64 != 237 {
            continue;
        }
        let s = Mpz::from_b(n).mul(&Mpz::from_b(n));
        let t = if up { t } else { wsub((0, 0), t) };
        let s = if up {
            s.sub(&Mpz::from_b(t))
        } else {
            s.add(&Mpz::from_b(t))
        };
        let (x, rest) = s.div_rem(&Mpz::from_u(1).shl(k as u64));
        if !rest.is_zero() || x.bits() != 237 {
            continue;
        }
        // any even power of two
        let e = r.range(-131000, 130000) * 2 + (k % 2) as i64;
        return compose(false, x.to_b(), e);
    }
    None
}

/// Move b by a few units in the last place (stays finite, keeps sign).
pub fn nudge(r: &mut Rng, b: B) -> B {
    let n = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => -1,
        _ => r.range(-40, 40),
    };
    let a = abs(b);
    let m = add_bits(a, n);
    if n < 0 && (m.0 & HI_SIGN) != 0 {
        return b;
    }
    if !is_finite(m) || m.0 & HI_SIGN != 0 {
        return b;
    }
    (m.0 | (b.0 & HI_SIGN), m.1)
}

/// Correlated pair for additive operations.
pub fn pair_add(r: &mut Rng) -> (B, B) {
    let x = finite(r);
    let y = match r.below(12) {
        0 => value(r),
        1 => with_exp(finite(r), lead_exp(x)),
        2 | 3 => {
            // exponent distance up to 500
            let d = dist(r, -500, 500);
            with_exp(finite(r), lead_exp(x) + d)
        }
        4 => {
            // around the precision
            let d = r.range(232, 242) * if r.bool() { 1 } else { -1 };
            with_exp(finite(r), lead_exp(x) + d)
        }
        5 => {
            // exactly half an ulp, give or take
            let d = r.range(235, 239);
            let y = make(r.bool(), 1, (0, 0));
            nudge(r, with_exp(y, lead_exp(x) - d))
        }
        6 => {
            let n = nudge(r, x);
            neg(n)
        }
        7 => nudge(r, x),
        8 => {
            // near-cancellation across a binade
            let e = lead_exp(x) + r.range(-2, 2);
            let y = with_exp(x, e);
            let y = nudge(r, y);
            if r.bool() {
                neg(y)
            } else {
                y
            }
        }
        9 => {
            let y = with_exp(finite(r), lead_exp(x) + r.range(-3, 3));
            if is_neg(x) == is_neg(y) {
                neg(y)
            } else {
                y
            }
        }
        10 => {
            // value whose bits straddle the rounding position of x
            let q = lead_exp(x) - 236;
            let n = r.range(1, 20) as u32;
            match compose(r.bool(), odd_bits(r, n), q - r.range(1, n as i64 + 2)) {
                Some(y) => y,
                None => finite(r),
            }
        }
        _ => finite(r),
    };
    if r.bool() {
        (x, y)
    } else {
        (y, x)
    }
}

/// Pair with the product exponent steered.
pub fn pair_mul(r: &mut Rng) -> (B, B) {
    match r.below(13) {
        10 | 11 => {
            let (a, b) = near_tie_mul(r);
            if r.bool() {
                steer(r, a, b)
            } else {
                steer(r, b, a)
            }
        }
        12 => {
            if r.chance(3, 4) {
                let (a, b) = near_tie_mul(r);
                return steer(r, a, b);
            }
            let (a, b, k) = near_tie_mul_sub(r);
            // k bits below the smallest subnormal
            let m = 510 - lz256(a) as i64 - lz256(b) as i64;
            split_exp(r, a, b, ETINY - k as i64 + m)
        }
        0 => (value(r), value(r)),
        1 | 2 => {
            // exact products of 230..=242 bits: ties and near ties
            let n = r.range(1, 236);
            let m = (r.range(230, 242) - n).clamp(1, 237);
            let (a, b) = (odd_bits(r, n as u32), odd_bits(r, m as u32));
            steer(r, a, b)
        }
        3 | 4 => {
            // full significands, product in any range
            let (a, b) = (sig(r), sig(r));
            steer(r, a, b)
        }
        5 => {
            // product of k bits, result subnormal with k bits straddling
            let n = r.range(1, 120) as u32;
            let m = r.range(1, 117) as u32;
            let (a, b) = (odd_bits(r, n), odd_bits(r, m));
            // leading exponent of the result in the subnormal range
            let e = r.range(ETINY - 3, EMIN + 2);
            split_exp(r, a, b, e)
        }
        6 => {
            // overflow boundary
            let (a, b) = (sig(r), sig(r));
            let e = EMAX + r.range(-2, 1);
            split_exp(r, a, b, e)
        }
        7 => {
            // subnormal operand times large
            let x = make(r.bool(), 0, frac(r));
            let x = if is_zero(x) { MIN_SUB } else { x };
            let y = finite(r);
            (x, y)
        }
        _ => (finite(r), finite(r)),
    }
}
pub fn sig(r: &mut Rng) -> B {
    let f = frac(r);
    (f.0 | 1 << HI_FRAC, f.1)
}
fn steer(r: &mut Rng, a: B, b: B) -> (B, B) {
    let e = match r.below(5) {
        0 => r.range(ETINY - 2, EMIN + 2),
        1 => r.range(EMIN - 260, EMIN + 10),
        2 => EMAX + r.range(-3, 1),
        _ => r.range(-1000, 1000),
    };
    split_exp(r, a, b, e)
}
/// Scale integers a, b so that the product of their leading exponents is
/// about 2^e.
fn split_exp(r: &mut Rng, a: B, b: B, e: i64) -> (B, B) {
    let ma = 255 - lz256(a) as i64;
    let mb = 255 - lz256(b) as i64;
    let lo = (e - EMAX).max(EMIN);
    let hi = (e - EMIN).min(EMAX);
    let ea = if lo > hi {
        e / 2
    } else if r.chance(1, 8) {
        if r.bool() {
            lo
        } else {
            hi
        }
    } else {
        r.range(lo, hi)
    };
    let eb = e - ea;
    let x = compose(r.bool(), a, ea - ma).unwrap_or(ONE);
    let y = compose(r.bool(), b, eb - mb).unwrap_or(ONE);
    (x, y)
}

/// Pair for division.
pub fn pair_div(r: &mut Rng) -> (B, B) {
    match r.below(12) {
        10 | 11 => {
            // subnormal quotients have less bits
            let n = if r.chance(1, 3) { r.range(1, 237) as u32 } else { 238 };
            let Some((a, b, s)) = near_tie_div(r, n.max(2)) else {
                return (finite(r), finite(r));
            };
            let e = if n < 238 {
                ETINY + n as i64 - 2 + s
            } else {
                match r.below(4) {
                    0 => r.range(ETINY - 3, EMIN + 2),
                    1 => EMAX + r.range(-3, 2),
                    _ => r.range(-300, 300),
                }
            };
            quot_exp(r, a, b, e)
        }
        0 => (value(r), value(r)),
        1 => {
            let (x, y) = pair_mul(r);
            // negate exponent of y
            if is_fin_nz(y) && !is_sub(y) {
                let e = lead_exp(y);
                (x, with_exp(y, -e))
            } else {
                (x, y)
            }
        }
        2 => {
            // exact quotients, scaled to any result range
            let n = r.range(1, 120) as u32;
            let m = r.range(1, 237 - n as i64) as u32;
            let q = odd_bits(r, n);
            let b = odd_bits(r, m);
            let a = mul_small(q, b);
            let e = match r.below(3) {
                0 => r.range(ETINY - 3, EMIN + 2),
                1 => EMAX + r.range(-3, 2),
                _ => r.range(-300, 300),
            };
            quot_exp(r, a, b, e)
        }
        3 | 4 => {
            // quotient very close to a 238-bit value (halfway point)
            let b = sig(r);
            let q = odd_bits(r, 237);
            let q = Mpz::from_b(q);
            let q2 = q.add(&q).add(&Mpz::from_u(1)); // 238 bits, odd
            let prod = q2.mul(&Mpz::from_b(b));
            let nb = prod.bits();
            let (hi, _) = prod.div_rem(&Mpz::from_u(1).shl(nb - 237));
            let mut a = hi.to_b();
            if r.bool() {
                let c = add_bits(a, 1);
                if lz256(c) >= 19 {
                    a = c;
                }
            }
            let e = match r.below(3) {
                0 => r.range(ETINY - 3, EMIN + 2),
                _ => r.range(-300, 300),
            };
            quot_exp(r, a, b, e)
        }
        5 => {
            // same significand, nudged
            let x = finite(r);
            let y = with_exp(x, lead_exp(finite(r)));
            (nudge(r, x), nudge(r, y))
        }
        6 => {
            let a = sig(r);
            let b = sig(r);
            let e = match r.below(3) {
                0 => r.range(ETINY - 3, EMIN + 2),
                1 => EMAX + r.range(-3, 2),
                _ => r.range(-300, 300),
            };
            quot_exp(r, a, b, e)
        }
        7 => {
            // subnormal operands
            let mut x = make(r.bool(), 0, frac(r));
            if is_zero(x) {
                x = MIN_SUB;
            }
            let y = if r.bool() {
                let mut y = make(r.bool(), 0, frac(r));
                if is_zero(y) {
                    y = MIN_SUB;
                }
                y
            } else {
                finite(r)
            };
            if r.bool() {
                (x, y)
            } else {
                (y, x)
            }
        }
        8 => (finite(r), small_int(r)),
        _ => (finite(r), finite(r)),
    }
}
pub fn mul_small(a: B, b: B) -> B {
    Mpz::from_b(a).mul(&Mpz::from_b(b)).to_b()
}
fn quot_exp(r: &mut Rng, a: B, b: B, e: i64) -> (B, B) {
    let ma = 255 - lz256(a) as i64;
    let mb = 255 - lz256(b) as i64;
    // ea - eb = e
    let lo = EMIN.max(EMIN + e);
    let hi = EMAX.min(EMAX + e);
    let ea = if lo > hi { e / 2 } else { r.range(lo, hi) };
    let eb = ea - e;
    let x = compose(r.bool(), a, ea - ma).unwrap_or(ONE);
    let y = compose(r.bool(), b, eb - mb).unwrap_or(ONE);
    (x, y)
}

/// Pair for remainder: exponent distance limited most of the time (the
/// operation works bit by bit).
pub fn pair_rem(r: &mut Rng) -> (B, B) {
    match r.below(12) {
        0 => (value(r), value(r)),
        1 | 2 => {
            let x = finite(r);
            let d = dist(r, -5, 700);
            (x, with_exp(finite(r), lead_exp(x) - d))
        }
        3 => {
            // exact multiple, nudged
            let n = r.range(1, 200) as u32;
            let m = r.range(1, 237 - n as i64) as u32;
            let q = odd_bits(r, n);
            let b = odd_bits(r, m);
            let a = mul_small(q, b);
            let e = r.range(-40, 300);
            let s = r.range(-3, 60);
            let (x, y) = (
                compose(r.bool(), a, e + s).unwrap(),
                compose(r.bool(), b, e).unwrap(),
            );
            if r.bool() {
                (x, y)
            } else {
                (nudge(r, x), y)
            }
        }
        4 => {
            let x = finite(r);
            (x, nudge(r, x))
        }
        5 => {
            // same significand, other exponent
            let x = finite(r);
            (x, with_exp(x, lead_exp(x) + dist(r, -300, 300)))
        }
        6 | 7 => {
            // subnormals involved
            let mut y = make(r.bool(), r.below(3) as u32, frac(r));
            if is_zero(y) {
                y = MIN_SUB;
            }
            let mut x = make(r.bool(), r.below(400) as u32, frac(r));
            if is_zero(x) {
                x = MIN_SUB;
            }
            if r.chance(1, 4) {
                (y, x)
            } else {
                (x, y)
            }
        }
        8 => {
            let x = make(r.bool(), (BIAS + r.range(0, 300)) as u32, frac(r));
            (x, small_int(r))
        }
        9 => {
            // same fraction, one subnormal one normal
            let f = frac(r);
            let f = if f == (0, 0) { (0, 1) } else { f };
            (make(r.bool(), r.below(4) as u32, f), make(r.bool(), r.below(3) as u32, f))
        }
        10 => {
            let x = finite(r);
            let d = r.range(0, 3000);
            (x, with_exp(finite(r), lead_exp(x) - d))
        }
        _ => {
            // far apart (rare, costly)
            if r.chance(1, 24) {
                (finite(r), finite(r))
            } else {
                let x = finite(r);
                (x, with_exp(finite(r), lead_exp(x) - r.range(200, 320)))
            }
        }
    }
}

/// Triple for fused multiply-add.
pub fn triple_fma(r: &mut Rng) -> (B, B, B) {
    let (a, b) = pair_mul(r);
    if !is_fin_nz(a) || !is_fin_nz(b) {
        return (a, b, value(r));
    }
    let c = addend(r, &|| fma(a, b, ZERO), lead_exp(a) + lead_exp(b), Some((a, b)));
    (a, b, c)
}

/// An addend correlated with a product of leading exponent about pe.
fn addend(
    r: &mut Rng,
    prod: &dyn Fn() -> B,
    pe: i64,
    ops: Option<(B, B)>,
) -> B {
    match r.below(13) {
        0 => value(r),
        1 => ZERO,
        2 | 3 => with_exp(finite(r), pe + dist(r, -500, 500)),
        4 => with_exp(finite(r), pe + r.range(-4, 4)),
        5 | 6 => {
            // cancel the product's leading part
            let p = prod();
            if is_fin_nz(p) {
                let p = neg(p);
                nudge(r, p)
            } else {
                finite(r)
            }
        }
        7 => {
            // tiny addend: decides exact ties of the product
            let y = make(r.bool(), r.below(300) as u32, frac(r));
            if is_zero(y) {
                MIN_SUB
            } else {
                y
            }
        }
        8 => {
            // addend whose half-ulp is near the product
            let d = r.range(234, 240);
            with_exp(finite(r), pe + d)
        }
        9 => {
            let d = r.range(230, 242);
            with_exp(finite(r), pe - d)
        }
        10 => {
            // full width distance
            let d = r.range(465, 480) * if r.bool() { 1 } else { -1 };
            with_exp(finite(r), pe + d)
        }
        11 => {
            // exact cancellation to the low half: c = -(high part), the
            // remainder of the product stays
            match ops {
                Some((a, b)) => {
                    let (_, sa, qa) = decode(a);
                    let (_, sb, qb) = decode(b);
                    let p = Mpz::from_b(sa).mul(&Mpz::from_b(sb));
                    let nb = p.bits();
                    if nb <= 237 {
                        return finite(r);
                    }
                    let drop = nb - 237 + r.below(10);
                    let drop = drop.min(nb - 1);
                    let (hi, _) = p.div_rem(&Mpz::from_u(1).shl(drop));
                    let sgn = is_neg(a) == is_neg(b);
                    compose(sgn, hi.to_b(), qa + qb + drop as i64)
                        .unwrap_or(ONE)
                }
                None => finite(r),
            }
        }
        _ => {
            // power of two near half an ulp of the product or vice versa
            let d = r.range(234, 240) * if r.bool() { 1 } else { -1 };
            let y = make(r.bool(), 1, (0, 0));
            let y = with_exp(y, pe + d);
            nudge(r, y)
        }
    }
}

/// Operands of a*a + c.
pub fn pair_square_add(r: &mut Rng) -> (B, B) {
    let a = square_operand(r);
    if !is_fin_nz(a) {
        return (a, value(r));
    }
    let c = addend(r, &|| fma(a, a, ZERO), 2 * lead_exp(a), Some((a, a)));
    (a, c)
}
pub fn square_operand(r: &mut Rng) -> B {
    match r.below(9) {
        8 => {
            let v = near_tie_sq(r);
            let e = sq_exp(r);
            compose(r.bool(), v, e - 236).unwrap_or(ONE)
        }
        0 => value(r),
        1 | 2 => {
            // short: exact squares, ties when 2n-1 or 2n = 238 bits
            let n = r.range(100, 125) as u32;
            let v = odd_bits(r, n);
            let e = sq_exp(r);
            compose(r.bool(), v, e - n as i64).unwrap_or(ONE)
        }
        3 => {
            let n = r.range(1, 100) as u32;
            let v = odd_bits(r, n);
            let e = sq_exp(r);
            compose(r.bool(), v, e - n as i64).unwrap_or(ONE)
        }
        4 => {
            let v = sig(r);
            let e = sq_exp(r);
            compose(r.bool(), v, e - 236).unwrap_or(ONE)
        }
        _ => finite(r),
    }
}
fn sq_exp(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 => EMIN / 2 + r.range(-125, 10),
        1 => EMAX / 2 + r.range(-3, 3),
        2 => EMIN / 2 - 118 + r.range(-3, 3),
        _ => r.range(-300, 300),
    }
}
/// Operands of a*a + b*b.
pub fn pair_sos(r: &mut Rng) -> (B, B) {
    let a = square_operand(r);
    if !is_fin_nz(a) {
        return if r.bool() { (a, value(r)) } else { (value(r), a) };
    }
    let e = lead_exp(a);
    let b = match r.below(10) {
        9 => {
            // tips a square that is close to a halfway point
            let d = r.range(110, 242);
            with_exp(finite(r), e - d)
        }
        0 => value(r),
        1 => square_operand(r),
        2 | 3 => with_exp(finite(r), e + dist(r, -250, 250)),
        4 => with_exp(finite(r), e + r.range(-3, 3)),
        5 => {
            let y = make(r.bool(), r.below(300) as u32, frac(r));
            if is_zero(y) {
                MIN_SUB
            } else {
                y
            }
        }
        6 => {
            let d = r.range(114, 124) * if r.bool() { 1 } else { -1 };
            with_exp(finite(r), e + d)
        }
        7 => {
            let d = r.range(230, 255) * if r.bool() { 1 } else { -1 };
            with_exp(finite(r), e + d)
        }
        _ => {
            let n = r.range(1, 120) as u32;
            let v = odd_bits(r, n);
            compose(r.bool(), v, e - r.range(0, 240)).unwrap_or(ONE)
        }
    };
    if r.bool() {
        (a, b)
    } else {
        (b, a)
    }
}

/// Operand of sqrt.
pub fn sqrt_operand(r: &mut Rng) -> B {
    match r.below(10) {
        8 | 9 => near_tie_sqrt(r).unwrap_or(ONE),
        0 => value(r),
        1 => {
            // perfect square, maybe nudged
            let n = r.range(1, 118) as u32;
            let v = odd_bits(r, n);
            let s = mul_small(v, v);
            let e = r.range(ETINY / 2 + 1, EMAX / 2 - 240) * 2 + r.range(0, 1);
            let b = compose(false, s, e).unwrap_or(ONE);
            abs(nudge(r, b))
        }
        2 | 3 => {
            // root close to a rounding boundary
            let v = Mpz::from_b(odd_bits(r, 237));
            let v2 = v.add(&v).add(&Mpz::from_u(1));
            let s = v2.mul(&v2);
            let nb = s.bits();
            let (hi, _) = s.div_rem(&Mpz::from_u(1).shl(nb - 237));
            let e = r.range(-131000, 131000) * 2
                + if (nb - 237) % 2 == 0 { 0 } else { 1 };
            let b = compose(false, hi.to_b(), e).unwrap_or(ONE);
            abs(nudge(r, b))
        }
        4 => {
            let mut f = frac(r);
            if f == (0, 0) {
                f = (0, 1);
            }
            make(false, 0, f)
        }
        _ => {
            let x = finite(r);
            if r.chance(1, 10) {
                x
            } else {
                abs(x)
            }
        }
    }
}

/// Operand of the rounding-to-integer family.
pub fn int_operand(r: &mut Rng) -> B {
    match r.below(10) {
        0 => value(r),
        1 | 2 => {
            // n + 1/2, nudged
            let n = r.range(1, 238) as u32;
            let v = odd_bits(r, n.min(237));
            let b = compose(r.bool(), v, -1).unwrap_or(ONE);
            nudge(r, b)
        }
        3 => {
            // n + k/2^j with few fraction bits
            let n = r.range(1, 237) as u32;
            let v = odd_bits(r, n);
            compose(r.bool(), v, -r.range(0, n as i64 + 3)).unwrap_or(ONE)
        }
        4 => {
            // integer, nudged
            let n = r.range(1, 237) as u32;
            let v = odd_bits(r, n);
            let b = compose(r.bool(), v, 0).unwrap_or(ONE);
            nudge(r, b)
        }
        5 => {
            // around 1/2 and 1 and 3/2
            let e = r.range(-3, 1);
            let f = *r.pick(&[(0u128, 0u128), (1 << 107, 0), (1 << 106, 0), (3 << 106, 0)]);
            let b = make(r.bool(), (BIAS + e) as u32, f);
            nudge(r, b)
        }
        6 => make(r.bool(), (BIAS + r.range(-3, 240)) as u32, frac(r)),
        7 => {
            // all ones below the point
            let e = r.range(0, 236);
            let f = frac(r);
            let m = shr256((u128::MAX, u128::MAX), 256 - (236 - e) as u32);
            let f = if e == 236 { f } else { (f.0 | m.0, f.1 | m.1) };
            make(r.bool(), (BIAS + e) as u32, (f.0 & HI_FRAC_MASK, f.1))
        }
        _ => make(r.bool(), (BIAS + r.range(-300, 300)) as u32, frac(r)),
    }
}

/// Hard arguments for trigonometric reduction: significand m and exponent q
/// with m*2^q very close to a multiple of pi/2 (continued fraction of
/// 2^q / (pi/2)).
pub fn near_pio2(r: &mut Rng, q: i64) -> B {
    let prec = q.max(0) + 1200;
    let mut pi = Mp::new(prec);
    pi.const_pi();
    // ratio pi/2 / 2^q as num/den integers: num = floor(pi * 2^k)
    let mut t = Mp::new(prec);
    t.mul_2si(&pi, prec - 3);
    let num = t.get_z(); // pi * 2^(prec-3)
    // pi/2/2^q = num / 2^(prec-3+1+q)
    let sh = prec - 2 + q;
    let mut a = num;
    let mut b = Mpz::from_u(1).shl(sh as u64);
    // convergents of a/b : m / k, with m the multiple (significand)
    let (mut p0, mut p1) = (Mpz::from_u(0), Mpz::from_u(1));
    let mut best = vec![];
    loop {
        if b.is_zero() {
            break;
        }
        let (qq, rem) = a.div_rem(&b);
        let p2 = qq.mul(&p1).add(&p0);
        if p2.bits() > 237 {
            break;
        }
        if p2.bits() >= 1 {
            best.push(p2.clone());
        }
        p0 = p1;
        p1 = p2;
        a = b;
        b = rem;
    }
    let n = best.len();
    if n == 0 {
        return ONE;
    }
    let back = r.below(3.min(n as u64)) as usize;
    let m = best[n - 1 - back].to_b();
    compose(r.bool(), m, q).unwrap_or(ONE)
}

/// round(k * pi/2^j) for random k, nudged.
pub fn mult_pi(r: &mut Rng) -> B {
    let bits = r.range(1, 237) as u32;
    let bits = if r.bool() { bits.min(12) } else { bits };
    let k = odd_bits(r, bits);
    let j = r.range(0, 4);
    let mut pi = Mp::new(600);
    pi.const_pi();
    let mut kk = Mp::new(240);
    kk.set_z_2exp(&Mpz::from_b(k), -j);
    let mut p = Mp::new(600);
    p.mul(&pi, &kk);
    let b = round_to_bits(&p);
    let b = nudge(r, b);
    if r.bool() {
        neg(b)
    } else {
        b
    }
}

/// Argument of sin/cos/tan.
pub fn trig_arg(r: &mut Rng) -> B {
    match r.below(16) {
        0 => value(r),
        1 => make(r.bool(), bexp(r), frac(r)),
        2..=4 => make(r.bool(), (BIAS + r.range(-4, 5)) as u32, frac(r)),
        5 | 6 => make(r.bool(), (BIAS + r.range(-130, -1)) as u32, frac(r)),
        7 => make(r.bool(), (BIAS + r.range(-560, -100)) as u32, frac(r)),
        8 | 9 => make(r.bool(), (BIAS + r.range(2, 262)) as u32, frac(r)),
        10 => make(r.bool(), (BIAS + r.range(230, 1200)) as u32, frac(r)),
        11 => make(r.bool(), r.range(BIAS, 524286) as u32, frac(r)),
        12 | 13 => mult_pi(r),
        14 => {
            let q = r.range(-236, 40);
            let b = near_pio2(r, q);
            nudge(r, b)
        }
        _ => {
            let q = if r.chance(1, 20) {
                r.range(0, EMAX - 236)
            } else {
                r.range(0, 3000)
            };
            near_pio2(r, q)
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn near_ties() {
        let mut r = Rng::new(7);
        let (mut d, mut s) = (0, 0);
        for i in 0..1000u32 {
            let n = if i % 2 == 0 { 238 } else { 2 + i % 236 };
            d += near_tie_div(&mut r, n).is_some() as u32;
            s += near_tie_sqrt(&mut r).is_some() as u32;
        }
        eprintln!("div {d}, sqrt {s} of 1000");
        assert!(d > 900 && s > 900);
    }
}
