//! Decimal side: exact oracles for parsing and formatting, generators of
//! decimal literals.
#![allow(dead_code)]
use crate::gen;
use crate::mp::*;
use crate::rng::Rng;
use std::cmp::Ordering;

/// Parsed plain decimal literal: sign, digits (no point), exponent of the
/// last digit (saturated).
pub struct Lit {
    pub neg: bool,
    pub digits: String,
    pub exp: i64,
}

/// The grammar of f64::from_str, numbers only.
pub fn split_lit(s: &str) -> Option<Lit> {
    let b = s.as_bytes();
    let mut p = 0;
    let mut neg = false;
    if p < b.len() && (b[p] == b'+' || b[p] == b'-') {
        neg = b[p] == b'-';
        p += 1;
    }
    let mut digits = String::new();
    let mut exp = 0i64;
    let mut any = false;
    while p < b.len() && b[p].is_ascii_digit() {
        digits.push(b[p] as char);
        any = true;
        p += 1;
    }
    if p < b.len() && b[p] == b'.' {
        p += 1;
        while p < b.len() && b[p].is_ascii_digit() {
            digits.push(b[p] as char);
            exp -= 1;
            any = true;
            p += 1;
        }
    }
    if !any {
        return None;
    }
    if p < b.len() && (b[p] == b'e' || b[p] == b'E') {
        p += 1;
        let mut en = false;
        if p < b.len() && (b[p] == b'+' || b[p] == b'-') {
            en = b[p] == b'-';
            p += 1;
        }
        let st = p;
        let mut e = 0i64;
        while p < b.len() && b[p].is_ascii_digit() {
            e = (e * 10 + (b[p] - b'0') as i64).min(1 << 50);
            p += 1;
        }
        if st == p {
            return None;
        }
        exp += if en { -e } else { e };
    }
    if p != b.len() {
        return None;
    }
    Some(Lit { neg, digits, exp })
}

/// Correctly rounded value of a literal.
pub fn parse_value(l: &Lit) -> B {
    let t = l.digits.trim_start_matches('0');
    let s = if l.neg { HI_SIGN } else { 0 };
    if t.is_empty() {
        return (s, 0);
    }
    // exponent of the leading digit
    let lead = l.exp + t.len() as i64 - 1;
    if lead > 79000 {
        return (INF.0 | s, 0);
    }
    if lead < -79100 {
        return (s, 0);
    }
    let lit = format!("{}{}e{}", if l.neg { "-" } else { "" }, t, l.exp);
    parse_dec(&lit)
}

/// num/den of |x| for finite non-zero x, as (sig, exponent of two).
fn frac10(x: B, half_units: i64, n10: i64) -> (Mpz, Mpz) {
    // (4*sig + half_units) * 2^(q-2) * 10^n10
    let (_, sg, q) = decode(x);
    let mut num = Mpz::from_b(sg).shl(2);
    let d = Mpz::from_u(half_units.unsigned_abs());
    num = if half_units < 0 { num.sub(&d) } else { num.add(&d) };
    let q = q - 2;
    let mut den = Mpz::from_u(1);
    if n10 >= 0 {
        num = num.mul(&Mpz::pow10(n10 as u64));
    } else {
        den = den.mul(&Mpz::pow10((-n10) as u64));
    }
    if q >= 0 {
        num = num.shl(q as u64);
    } else {
        den = den.shl((-q) as u64);
    }
    (num, den)
}

/// e such that |x| is in [10^(e-1), 10^e).
pub fn dec_exp(x: B) -> i64 {
    Mp::from_bits(x).get_str(2, RNDZ).2
}

fn round_half_even(num: &Mpz, den: &Mpz) -> Mpz {
    let (mut q, r) = num.div_rem(den);
    let c = r.shl(1).cmp(den);
    if c == Ordering::Greater || (c == Ordering::Equal && q.bit(0)) {
        q = q.add(&Mpz::from_u(1));
    }
    q
}

/// |x| with `prec` digits after the point, round half to even.
pub fn fixed(x: B, prec: usize) -> String {
    if is_zero(x) {
        return if prec == 0 {
            "0".into()
        } else {
            format!("0.{}", "0".repeat(prec))
        };
    }
    let (_, _, q) = decode(x);
    let n = if lead_exp(x) < -300 - 4 * prec as i64 && q < 0 {
        Mpz::from_u(0)
    } else {
        let (num, den) = frac10(x, 0, prec as i64);
        round_half_even(&num, &den)
    };
    let mut s = n.to_dec();
    if s.len() <= prec {
        s = "0".repeat(prec + 1 - s.len()) + &s;
    }
    if prec > 0 {
        s.insert(s.len() - prec, '.');
    }
    s
}

/// |x| in scientific notation with `prec` digits after the point.
pub fn scientific(x: B, prec: usize, mark: char) -> String {
    if is_zero(x) {
        let f = if prec == 0 {
            "0".into()
        } else {
            format!("0.{}", "0".repeat(prec))
        };
        return format!("{f}{mark}0");
    }
    let mut e = dec_exp(x);
    let n = prec as i64 + 1;
    let (num, den) = frac10(x, 0, n - e);
    let d = round_half_even(&num, &den);
    let mut s = d.to_dec();
    if s.len() as i64 > n {
        s.truncate(n as usize);
        e += 1;
    }
    if prec > 0 {
        s.insert(1, '.');
    }
    format!("{s}{mark}{}", e - 1)
}

/// Shortest decimal digits that identify |x| under round-half-even reading;
/// nearest to |x| among the shortest, and the one with an even last digit if two
/// are equally near.  Returns all admissible answers as (digits, e) with value 0.digits * 10^e.
pub fn shortest(x: B) -> Vec<(String, i64)> {
    let (_, sg, _) = decode(x);
    let be = biased(x);
    let even = sg.1 & 1 == 0;
    let low_quarter = be > 1 && sg == (1 << HI_FRAC, 0);
    const W: i64 = 90;
    let e = dec_exp(x);
    let cut = |hu: i64| -> (Mpz, bool) {
        let (num, den) = frac10(x, hu, W - e);
        let (q, r) = num.div_rem(&den);
        (q, !r.is_zero())
    };
    let (v, vs) = cut(0);
    let (lo, los) = cut(if low_quarter { -1 } else { -2 });
    let (hi, his) = cut(2);
    // compare integer c (scaled) with (q, sticky)
    let cmp = |c: &Mpz, q: &Mpz, st: bool| -> Ordering {
        match c.cmp(q) {
            Ordering::Equal if st => Ordering::Less,
            o => o,
        }
    };
    let inside = |c: &Mpz| -> bool {
        let a = cmp(c, &lo, los);
        let b = cmp(c, &hi, his);
        (a == Ordering::Greater || (even && a == Ordering::Equal))
            && (b == Ordering::Less || (even && b == Ordering::Equal))
    };
    let probe = |n: i64| -> (bool, bool, Mpz, Mpz, Mpz) {
        let u = Mpz::pow10((W - n) as u64);
        let (f, r) = v.div_rem(&u);
        let c0 = f.mul(&u);
        let c1 = c0.add(&u);
        let a = inside(&c0) && !f.is_zero();
        let b = inside(&c1);
        let _ = r;
        (a, b, f, c0, c1)
    };
    // smallest n
    let (mut l, mut h) = (0i64, 80i64);
    while h - l > 1 {
        let m = (l + h) / 2;
        let p = probe(m);
        if p.0 || p.1 {
            h = m;
        } else {
            l = m;
        }
    }
    let (a, b, f, c0, c1) = probe(h);
    let f1 = f.add(&Mpz::from_u(1));
    let pick = match (a, b) {
        (true, false) => vec![f],
        (false, true) => vec![f1],
        _ => {
            // distances: v - c0 versus c1 - v  <=>  2v versus c0 + c1
            let t = v.shl(1);
            let s = c0.add(&c1);
            match t.cmp(&s) {
                Ordering::Less => {
                    if vs && {
                        // 2(v+eps) vs s, eps < 1
                        s.sub(&t).bits() <= 1
                    } {
                        // cannot happen with W digits of slack, be lenient
                        vec![f, f1]
                    } else {
                        vec![f]
                    }
                }
                // of two equally close ones the even one
                Ordering::Equal if !vs => vec![if f.bit(0) { f1 } else { f }],
                _ => vec![f1],
            }
        }
    };
    // d * 10^k against 1 * 10^(k+1): both have one digit, either will do
    let up = h == 1 && inside(&Mpz::pow10(W as u64));
    let mut out: Vec<(String, i64)> = pick
        .into_iter()
        .map(|d| {
            let mut s = d.to_dec();
            let mut ee = e;
            if s.len() as i64 > h {
                ee += 1;
            }
            while s.len() > 1 && s.ends_with('0') {
                s.pop();
            }
            (s, ee)
        })
        .collect();
    if up {
        out.push(("1".into(), e + 1));
    }
    out
}

/// 0.digits * 10^e written positionally.
pub fn positional(d: &str, e: i64) -> String {
    let n = d.len() as i64;
    if e <= 0 {
        format!("0.{}{}", "0".repeat((-e) as usize), d)
    } else if e >= n {
        format!("{}{}", d, "0".repeat((e - n) as usize))
    } else {
        format!("{}.{}", &d[..e as usize], &d[e as usize..])
    }
}
pub fn sci(d: &str, e: i64, mark: char) -> String {
    if d.len() == 1 {
        format!("{d}{mark}{}", e - 1)
    } else {
        format!("{}.{}{mark}{}", &d[..1], &d[1..], e - 1)
    }
}

/// Exact decimal digits of v * 2^q: (digits, exponent of last digit).
pub fn exact_dec(v: &Mpz, q: i64) -> (String, i64) {
    if q >= 0 {
        (v.shl(q as u64).to_dec(), 0)
    } else {
        // v / 2^k = v * 5^k / 10^k
        let k = (-q) as u64;
        let p = Mpz::pow5(k);
        (v.mul(&p).to_dec(), q)
    }
}

/// Random rendering of digits * 10^e.
pub fn render(r: &mut Rng, neg: bool, d: &str, e: i64) -> String {
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if r.chance(1, 8) {
        s.push('+');
    }
    if r.chance(1, 6) {
        let m = if r.chance(1, 8) { 90 } else { 4 };
        s.push_str(&"0".repeat(r.below(m) as usize));
    }
    let n = d.len() as i64;
    // position of the point, counted from the left of d
    let pos = match r.below(6) {
        0 => n,
        1 => 1.min(n),
        2 => 0,
        3 => r.range(0, n),
        4 => {
            // plain positional if not too long
            let p = n + e;
            if (-120..=n + 120).contains(&p) {
                p
            } else {
                1
            }
        }
        _ => r.range(-20, n + 20),
    };
    if pos <= 0 {
        if r.chance(3, 4) {
            s.push('0');
        }
        s.push('.');
        s.push_str(&"0".repeat((-pos) as usize));
        s.push_str(d);
    } else if pos >= n {
        s.push_str(d);
        s.push_str(&"0".repeat((pos - n) as usize));
        if r.chance(1, 6) {
            s.push('.');
        }
    } else {
        s.push_str(&d[..pos as usize]);
        s.push('.');
        s.push_str(&d[pos as usize..]);
    }
    if r.chance(1, 8) && s.contains('.') {
        let m = if r.chance(1, 6) { 200 } else { 5 };
        s.push_str(&"0".repeat(r.below(m) as usize));
    }
    // value = 0.d * 10^(n+e) = (d with point at pos) * 10^(n+e-pos)
    let x = n + e - pos;
    if x != 0 || r.chance(1, 6) {
        s.push(if r.bool() { 'e' } else { 'E' });
        if x < 0 {
            s.push('-');
        } else if r.chance(1, 3) {
            s.push('+');
        }
        if r.chance(1, 10) {
            s.push_str("00");
        }
        s.push_str(&x.abs().to_string());
    }
    s
}

pub fn digits(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let mode = r.below(8);
    for k in 0..n {
        let c = match mode {
            0 => 9,
            1 => {
                if k == 0 || k + 1 == n {
                    1 + r.below(9)
                } else {
                    0
                }
            }
            2 => {
                if r.chance(1, 6) {
                    r.below(10)
                } else {
                    0
                }
            }
            _ => r.below(10),
        };
        let c = if k == 0 && c == 0 { 1 } else { c };
        s.push((b'0' + c as u8) as char);
    }
    s
}

fn bump(d: &str, up: bool) -> String {
    // decimal string +-1 in the last place
    let z = Mpz::from_dec(d);
    let o = Mpz::from_u(1);
    let z = if up { z.add(&o) } else { z.sub(&o) };
    z.to_dec()
}

/// Perturb an exact decimal.
fn perturb(r: &mut Rng, d: String, e: i64) -> (String, i64) {
    match r.below(8) {
        0 | 1 => (d, e),
        2 => {
            let m = if r.chance(1, 5) { 300 } else { 12 };
            let k = r.below(m) as usize;
            let t = *r.pick(&["1", "9", "5", "0"]);
            (format!("{d}{}{t}", "0".repeat(k)), e - k as i64 - 1)
        }
        3 => (bump(&d, true), e),
        4 if d.len() > 1 => (bump(&d, false), e),
        5 | 6 => {
            // cut after n digits (75..82 are the interesting places)
            let n = match r.below(4) {
                0 => r.range(60, 90),
                1 => r.range(74, 80),
                2 => r.range(17, 80),
                _ => r.range(1, d.len() as i64),
            }
            .min(d.len() as i64) as usize;
            let cut = d.len() - n;
            let t = d[..n].to_string();
            let t = match r.below(3) {
                0 => t,
                1 => bump(&t, true),
                _ => t,
            };
            (t, e + cut as i64)
        }
        _ => {
            let k = r.below(12) as usize;
            (format!("{d}{}", "9".repeat(k)), e - k as i64)
        }
    }
}

/// Exponent of a float whose exact decimal expansion is of a bearable size.
fn bearable_exp(r: &mut Rng) -> i64 {
    match r.below(40) {
        0 if r.chance(1, 12) => r.range(-20000, 20000),
        1 => r.range(-3000, 3000),
        2..=10 => r.range(-700, 700),
        _ => r.range(-260, 400),
    }
}

/// Decimal literal of w * 10^k that is extremely close to m * 2^j with m odd
/// of at most 238 bits (halfway point) or 237 bits (exact float).
pub fn hard_decimal(r: &mut Rng, wide: bool) -> Option<(String, i64)> {
    let k = match r.below(6) {
        0 if wide || r.chance(1, 20) => r.range(-2000, 2000),
        1 if wide => r.range(-78900, 78900),
        2 => r.range(-115, 115),
        _ => r.range(-400, 400),
    };
    // 10^k / 2^j in about [2^-12, 2^12]
    let l2 = (k as f64 * std::f64::consts::LOG2_10).round() as i64;
    let j = l2 + r.range(-12, 12);
    let (mut a, mut b) = if k >= 0 {
        (Mpz::pow10(k as u64), Mpz::from_u(1))
    } else {
        (Mpz::from_u(1), Mpz::pow10((-k) as u64))
    };
    if j >= 0 {
        b = b.shl(j as u64);
    } else {
        a = a.shl((-j) as u64);
    }
    // truncate to 1200 bits each, precise enough for the convergents
    let m = a.bits().max(b.bits());
    if m > 1400 {
        let sh = m - 1400;
        let p = Mpz::from_u(1).shl(sh);
        a = a.div_rem(&p).0;
        b = b.div_rem(&p).0;
    }
    let (mut p0, mut p1) = (Mpz::from_u(0), Mpz::from_u(1));
    let (mut q0, mut q1) = (Mpz::from_u(1), Mpz::from_u(0));
    let mut best: Vec<(Mpz, Mpz)> = vec![];
    while !b.is_zero() {
        let (t, rem) = a.div_rem(&b);
        let p2 = t.mul(&p1).add(&p0);
        let q2 = t.mul(&q1).add(&q0);
        if p2.bits() > 238 || q2.bits() > 256 {
            break;
        }
        best.push((p2.clone(), q2.clone()));
        p0 = p1;
        p1 = p2;
        q0 = q1;
        q1 = q2;
        a = b;
        b = rem;
    }
    // want p with 238 bits (halfway) or close: p/q ~ 10^k/2^j, so that
    // q * 10^k ~ p * 2^j
    let n = best.len();
    if n < 2 {
        return None;
    }
    // combine the last two convergents to reach exactly 238 bits, odd
    let (pa, qa) = &best[n - 1];
    let (pb, qb) = &best[n - 2];
    let mut p = pa.clone();
    let mut q = qa.clone();
    if r.chance(3, 4) && pa.bits() < 238 {
        let (t, _) = Mpz::from_u(1).shl(238).div_rem(pa);
        // t*pa + pb is below 2^238 or slightly above
        let t = t.sub(&Mpz::from_u(r.below(3)));
        if !t.neg_p() {
            p = t.mul(pa).add(pb);
            q = t.mul(qa).add(qb);
        }
    }
    if p.bits() > 238 || q.is_zero() {
        p = pa.clone();
        q = qa.clone();
    }
    let _ = p;
    Some((q.to_dec(), k))
}

/// Literals of numbers, exponents mostly moderate: the conversion of extreme
/// exponents takes tens of milliseconds.
pub fn gen_number(r: &mut Rng) -> String {
    let w = r.chance(1, 400);
    number(r, w)
}
/// Literals of numbers over the whole range, limits in particular.
pub fn gen_number_wide(r: &mut Rng) -> String {
    number(r, true)
}

fn number(r: &mut Rng, wide: bool) -> String {
    let neg = r.bool();
    let kind = match r.below(24) {
        // kinds that need extreme exponents
        k @ (11 | 12 | 13) if !wide => k - 9,
        k @ (3 | 7 | 8 | 16 | 17 | 23) if wide => 9 + k % 5,
        k => k,
    };
    match kind {
        0 | 1 => {
            let n = r.range(1, 100) as usize;
            let d = digits(r, n);
            let e = match r.below(4) {
                0 if wide => r.range(-79200, 79000),
                1 => r.range(-110, 115),
                _ => r.range(-400, 400),
            };
            render(r, neg, &d, e)
        }
        2 | 3 => {
            // small significand, powers in the exact range
            let n = r.range(1, 78) as usize;
            let d = digits(r, n);
            let e = r.range(-115, 115);
            render(r, neg, &d, e)
        }
        4..=8 => {
            // halfway between two floats, or a float, maybe perturbed
            let e = bearable_exp(r);
            let s = if r.chance(1, 5) {
                let n = r.range(1, 237) as u32;
                gen::odd_bits(r, n)
            } else {
                gen::sig(r)
            };
            let mut m = Mpz::from_b(s);
            let mut q = e;
            if r.chance(4, 5) {
                m = m.add(&m).add(&Mpz::from_u(1));
                q -= 1;
            }
            let (d, e) = exact_dec(&m, q);
            let (d, e) = perturb(r, d, e);
            render(r, neg, &d, e)
        }
        9 | 10 => {
            // a decimal close to a float, any exponent
            let x = if wide {
                gen::finite(r)
            } else {
                gen::make(false, (BIAS + r.range(-1700, 1700)) as u32, gen::frac(r))
            };
            let n = r.range(1, 90) as usize;
            let (_, d, e) =
                Mp::from_bits(abs(x)).get_str(n.max(2), *r.pick(&[RNDN, RNDZ, RNDU]));
            let l = d.len() as i64;
            render(r, neg, &d, e - l)
        }
        11 => {
            // near the overflow threshold
            let n = r.range(60, 100) as usize;
            let mut t = Mp::new(400);
            // 2^262144 - 2^261906
            let mut a = Mp::new(400);
            a.set_si_2exp(1, 262144);
            let mut b = Mp::new(400);
            b.set_si_2exp(1, 261906);
            t.sub(&a, &b);
            let (_, d, e) = t.get_str(n, *r.pick(&[RNDN, RNDZ, RNDU]));
            let d = match r.below(3) {
                0 => d,
                1 => bump(&d, true),
                _ => bump(&d, false),
            };
            let l = d.len() as i64;
            render(r, neg, &d, e - l)
        }
        12 => {
            // near the smallest subnormals / underflow threshold
            let k = r.range(1, 40);
            let mut t = Mp::new(400);
            t.set_si_2exp(k, ETINY - 1);
            let n = r.range(2, 100) as usize;
            let (_, d, e) = t.get_str(n, *r.pick(&[RNDN, RNDZ, RNDU]));
            let l = d.len() as i64;
            render(r, neg, &d, e - l)
        }
        13 => {
            // subnormals
            let x = gen::make(false, r.below(3) as u32, gen::frac(r));
            if is_zero(x) {
                return "0e-79000".into();
            }
            let n = r.range(2, 90) as usize;
            let (_, d, e) =
                Mp::from_bits(x).get_str(n, *r.pick(&[RNDN, RNDZ, RNDU]));
            let l = d.len() as i64;
            render(r, neg, &d, e - l)
        }
        14 => {
            // zero in disguise
            let m = if r.chance(1, 10) { 400 } else { 6 };
            let n = r.range(1, m) as usize;
            let d = "0".repeat(n);
            let e = match r.below(3) {
                0 => r.range(-100000, 100000),
                _ => r.range(-20, 20),
            };
            render(r, neg, &d, e)
        }
        15 => {
            // many digits
            let n = match r.below(12) {
                0 if r.chance(1, 4) => r.range(1000, 8000),
                1 => crate::dict::small(r).unwrap_or(100).min(2000),
                _ => r.range(77, 500),
            } as usize;
            let d = digits(r, n);
            let e = gen::dist(r, -600, 200).clamp(-2000, 2000);
            render(r, neg, &d, e)
        }
        16..=19 => match hard_decimal(r, wide) {
            Some((d, e)) => render(r, neg, &d, e),
            None => "1".into(),
        },
        20 => {
            // huge exponents, compensated or not
            let n = r.range(1, 60) as usize;
            let d = digits(r, n);
            let e = match r.below(6) {
                0 if wide => r.range(78820, 78920),
                1 if wide => r.range(-79100, -78800),
                2 if wide => r.range(-400000, 400000),
                3 => i32::MAX as i64 + r.range(-3, 3),
                4 => i32::MIN as i64 + r.range(-3, 3),
                _ => *r.pick(&[
                    i64::MAX,
                    i64::MIN + 1,
                    u32::MAX as i64,
                    u32::MAX as i64 + 1,
                    99_999_999_999,
                    -99_999_999_999,
                ]),
            };
            let z = if r.chance(1, 4) { "0" } else { &d };
            format!(
                "{}{}{}{}",
                if neg { "-" } else { "" },
                z,
                if r.bool() { "e" } else { "E" },
                e
            )
        }
        21 => {
            // long runs of zeros, then something; the exponent compensates
            let m = if r.chance(1, 10) { 3000 } else { 120 };
            let z = r.range(1, m);
            let n = r.range(1, 90) as usize;
            let d = digits(r, n);
            let lead = r.bool();
            let comp = r.range(-5, 5);
            if lead {
                format!("{}0.{}{}e{}", if neg { "-" } else { "" }, "0".repeat(z as usize), d, z + comp)
            } else {
                format!("{}{}{}e-{}", if neg { "-" } else { "" }, d, "0".repeat(z as usize), z + 5 + comp)
            }
        }
        22 => {
            // digits, zeros, digits: the tail matters only for ties
            let e = bearable_exp(r);
            let n = r.range(1, 238) as u32;
            let m = Mpz::from_b(gen::odd_bits(r, n));
            let (d, e) = exact_dec(&m, e.clamp(-300, 300));
            let k = r.below(150) as usize;
            let t = *r.pick(&["1", "7", "", "5"]);
            let d2 = format!("{d}{}{t}", "0".repeat(k));
            let e2 = e - (d2.len() - d.len()) as i64;
            render(r, neg, &d2, e2)
        }
        _ => {
            let v = r.u64() as f64 / 2f64.powi(r.below(64) as i32);
            format!("{}{v}", if neg { "-" } else { "" })
        }
    }
}

/// Near-miss and odd strings for the grammar.
pub fn gen_grammar(r: &mut Rng) -> String {
    const TOK: [&str; 34] = [
        "0", "1", "9", "00", "12345", "5", ".", ".", "e", "E", "+", "-", "-",
        "inf", "infinity", "nan", "NaN", "INF", "Infinity", "in", "infinit",
        "_", " ", "x", "0x1", "\u{660}", "e5", "E-3", ".5", "1.", "f", "é",
        "\t", "\0",
    ];
    match r.below(10) {
        0..=4 => {
            let n = r.range(0, 6);
            (0..n).map(|_| *r.pick(&TOK)).collect()
        }
        5 | 6 => {
            // mutate a valid number
            let s = gen_number_short(r);
            let mut v: Vec<char> = s.chars().collect();
            for _ in 0..r.range(1, 2) {
                let p = r.below(v.len() as u64 + 1) as usize;
                match r.below(4) {
                    0 if p < v.len() => {
                        v.remove(p);
                    }
                    1 if p < v.len() => {
                        v[p] = *r.pick(&['e', '.', '-', '+', 'x', ' ', '0', 'E', '/', ':']);
                    }
                    _ => {
                        let c = *r.pick(&['e', '.', '-', '+', 'x', ' ', '0', 'E', '/', ':', '\u{ff11}']);
                        v.insert(p, c);
                    }
                }
            }
            v.into_iter().collect()
        }
        7 => {
            // case variants of the special words
            let w = *r.pick(&["inf", "infinity", "nan"]);
            let mut s: String = w
                .chars()
                .map(|c| if r.bool() { c.to_ascii_uppercase() } else { c })
                .collect();
            if r.chance(1, 4) {
                s.pop();
            }
            if r.chance(1, 4) {
                s.push(*r.pick(&['y', ' ', '0', 'n']));
            }
            format!("{}{s}", r.pick(&["", "+", "-", "--", "+-", " "]))
        }
        8 => gen_number_short(r),
        _ => {
            // long runs, one odd character somewhere
            let n = r.range(1, 200) as usize;
            let mut v: Vec<char> = digits(r, n).chars().collect();
            if r.bool() {
                let p = r.below(v.len() as u64 + 1) as usize;
                v.insert(p, '.');
            }
            if r.chance(2, 3) {
                let p = r.below(v.len() as u64 + 1) as usize;
                v.insert(p, *r.pick(&['.', '-', 'e', 'x', '/', ':', ' ', 'é', '\u{b2}']));
            }
            v.into_iter().collect()
        }
    }
}
fn gen_number_short(r: &mut Rng) -> String {
    let n = r.range(1, 24) as usize;
    let d = digits(r, n);
    let e = r.range(-30, 30);
    let neg = r.bool();
    render(r, neg, &d, e)
}
