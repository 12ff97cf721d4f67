//! C04..C09: decimal text in both directions.
use super::*;
use crate::dec;
use crate::gen;
use crate::rng::Rng;
use crate::{Op, Res};
use std::str::FromStr;

fn parse(c: &Case) -> Res {
    let s = &c.s[0];
    let Some(l) = dec::split_lit(s) else {
        return Ok(false);
    };
    let w = dec::parse_value(&l);
    match f256::from_str(s) {
        Ok(x) => same("from_str", nb(x), w)?,
        Err(_) => return Err("valid literal rejected".into()),
    }
    Ok(!is_zero(w) && is_finite(w))
}
/// Literals around the halfway points with tens of thousands of digits.
fn gen_long(r: &mut Rng) -> Case {
    let neg = r.bool();
    // small exponents give long expansions; also shift in huge zero runs
    let (m, q) = match r.below(4) {
        0 => {
            // subnormal or barely normal halfway point
            let n = r.range(1, 238) as u32;
    let k = gen::odd_bits(r, n);
            (Mpz::from_b(k), ETINY - 1 + r.range(0, 2))
        }
        1 => (Mpz::from_b(gen::odd_bits(r, 238)), r.range(-3000, -500)),
        2 => (Mpz::from_b(gen::odd_bits(r, 238)), r.range(-70000, -3000)),
        _ => (Mpz::from_b(gen::odd_bits(r, 238)), r.range(1000, 60000)),
    };
    let (mut d, mut e) = dec::exact_dec(&m, q);
    match r.below(5) {
        0 => {}
        1 => {
            let k = r.below(3000) as usize;
            d.push_str(&"0".repeat(k));
            d.push('1');
            e -= k as i64 + 1;
        }
        2 => {
            let n = d.len();
            let last = d.pop().unwrap() as u8;
            let x = if last > b'0' { last - 1 } else { last };
            d.push(x as char);
            d.push('9');
            e -= 1;
            let _ = n;
        }
        3 => {
            // cut
            let n = r.range(1, d.len() as i64) as usize;
            e += (d.len() - n) as i64;
            d.truncate(n);
        }
        _ => {
            let k = r.below(500) as usize;
            d.push_str(&"0".repeat(k));
            e -= k as i64;
        }
    }
    Case::s(dec::render(r, neg, &d, e))
}
/// Literals longer than any internal digit limit.
fn gen_very_long(r: &mut Rng) -> Case {
    let n = r.range(1, 238) as u32;
    let k = gen::odd_bits(r, n);
    let (mut d, mut e) =
        dec::exact_dec(&Mpz::from_b(k), ETINY - 1 + r.range(0, 300));
    let n = r.range(0, 30000) as usize;
    d.push_str(&"0".repeat(n));
    e -= n as i64;
    if r.bool() {
        d.push('1');
        e -= 1;
    }
    let neg = r.bool();
    Case::s(dec::render(r, neg, &d, e))
}

/// Literals with more digits than the parser keeps, none of them useless,
/// at moderate exponents: leading zeros without end, a halfway point followed
/// by zeros and something beyond the limit, random digits.
fn gen_cut(r: &mut Rng) -> Case {
    const LIMIT: i64 = 183467;
    let n = (LIMIT + r.range(-400, 1500).max(gen::dist(r, -3, 3))) as usize;
    let (mut d, mut e) = match r.below(5) {
        0 => (dec::digits(r, n), -(n as i64) + r.range(-200, 250)),
        _ => {
            let n = r.range(230, 238) as u32;
            let k = gen::odd_bits(r, n);
            dec::exact_dec(&Mpz::from_b(k), r.range(-250, 150))
        }
    };
    if d.len() < n {
        let k = n - d.len() - 1;
        d.push_str(&"0".repeat(k));
        d.push(*r.pick(&['0', '1', '5', '9']));
        e -= k as i64 + 1;
    }
    match r.below(6) {
        0 => {
            // zeros in front, before or behind the point
            let k = r.range(1, 200_000) as usize;
            let z = "0".repeat(k);
            if r.bool() {
                return Case::s(format!("{z}{d}e{e}"));
            }
            let n = d.len() as i64;
            return Case::s(format!("-.{z}{d}e{}", e + n + k as i64));
        }
        1 => {
            let k = r.below(3000) as usize;
            d.push_str(&"0".repeat(k));
            e -= k as i64;
            if r.bool() {
                d.push('1');
                e -= 1;
            }
        }
        _ => {}
    }
    let neg = r.bool();
    Case::s(dec::render(r, neg, &d, e))
}

/// Every exponent of the tables with significands of all sizes.
fn grid_parse() -> Vec<Case> {
    let mut r = Rng::new(0x9a75e);
    let mut v = vec![];
    for k in -620..=620i64 {
        for n in [1usize, 2, 19, 38, 39, 60, 71, 72, 76, 77, 78, 79, 90] {
            let d: String = (0..n)
                .map(|j| (b'0' + if j == 0 { r.range(1, 9) } else { r.range(0, 9) } as u8) as char)
                .collect();
            v.push(Case::s(format!("{d}e{k}")));
        }
        v.push(Case::s(format!("1e{k}")));
        v.push(Case::s(format!("{}e{k}", "9".repeat(77))));
        v.push(Case::s(format!("0.{}e{k}", "9".repeat(77))));
    }
    // integers around the limits of the significand
    for n in [1u64, 2, 63, 64, 127, 128, 191, 192, 236, 237, 238, 255, 256, 257, 300] {
        let t = Mpz::from_u(1).shl(n);
        for d in 0..3u64 {
            for e in ["", "e1", "e-1", "e102", "e-102", "e103", "e-103", "e110", "e111", ".0", ".5e1", ".50000"] {
                v.push(Case::s(format!("{}{e}", t.add(&Mpz::from_u(d)).to_dec())));
                v.push(Case::s(format!("-{}{e}", t.sub(&Mpz::from_u(d)).to_dec())));
            }
        }
    }
    v
}
/// Limits of the exponent range.
fn grid_parse_wide() -> Vec<Case> {
    let mut v = vec![];
    for k in [
        -400000i64, -79100, -79062, -79061, -79060, -78986, -78985, -78984, -78983,
        -78982, -78914, -78913, -78912, -78911, 78911, 78912, 78913, 78914, 78915, 400000,
    ] {
        for d in [
            "1", "2", "4", "5", "9", "1.6113", "1.612", "2.4824", "2.4825", "2.24800708647703657297018614776265182597360918266100276294348974547709294462", "4.5",
            "0.00000000000000000000000000000000000000000000000000000000000000000000000000000001",
            "100000000000000000000000000000000000000000000000000000000000000000000000000000000",
            "99999999999999999999999999999999999999999999999999999999999999999999999999999",
        ] {
            v.push(Case::s(format!("{d}e{k}")));
            v.push(Case::s(format!("-{d}E{k}")));
        }
    }
    v
}

fn grammar(c: &Case) -> Res {
    let s = &c.s[0];
    let w = s.parse::<f64>();
    let g = f256::from_str(s);
    match (&w, &g) {
        (Ok(_), Err(_)) => return Err("rejected, but f64 accepts it".into()),
        (Err(_), Ok(x)) => {
            return Err(format!("accepted as {}, but f64 rejects it", hex(nb(*x))))
        }
        (Err(a), Err(b)) => {
            ensure(a == b, || format!("error {b:?}, f64 gives {a:?}"))?;
        }
        (Ok(a), Ok(b)) => {
            ensure(a.is_nan() == b.is_nan(), || "NaN-ness differs from f64".into())?;
            if !a.is_nan() {
                ensure(a.is_sign_negative() == b.is_sign_negative(), || {
                    "sign differs from f64".to_string()
                })?;
            }
            if a.is_infinite() && dec::split_lit(s).is_none() {
                ensure(b.is_infinite(), || "infinity expected".into())?;
            }
            if let Some(l) = dec::split_lit(s) {
                same("value", nb(*b), dec::parse_value(&l))?;
            }
        }
    }
    let t = f256::try_from(s.as_str());
    ensure(t.is_ok() == g.is_ok(), || "try_from disagrees".into())?;
    Ok(s.len() > 1)
}
/// All strings of length up to 5 over a small alphabet.
fn grid_grammar() -> Vec<Case> {
    const A: [char; 8] = ['0', '7', '.', 'e', '-', '+', 'E', ' '];
    let mut v = vec![Case::s(String::new())];
    for n in 1..=5u32 {
        for k in 0..8usize.pow(n) {
            let mut x = k;
            let mut s = String::new();
            for _ in 0..n {
                s.push(A[x % 8]);
                x /= 8;
            }
            v.push(Case::s(s));
        }
    }
    for w in ["inf", "infinity", "nan", "infin", "na", "i", "n", "infinityy", "nann"] {
        for p in ["", "+", "-", "++", " "] {
            for m in 0..(1u32 << w.len().min(8)) {
                let t: String = w
                    .chars()
                    .enumerate()
                    .map(|(k, c)| {
                        if m >> k.min(8) & 1 == 1 {
                            c.to_ascii_uppercase()
                        } else {
                            c
                        }
                    })
                    .collect();
                v.push(Case::s(format!("{p}{t}")));
            }
        }
    }
    // one odd byte in place of each character of a number
    for b in 0..128u8 {
        for t in ["1", "12", "1.5", "1e5", "12345678", "1234567.8", "0.12345678e-12"] {
            for k in 0..t.len() {
                let mut x = t.as_bytes().to_vec();
                x[k] = b;
                if let Ok(s) = String::from_utf8(x) {
                    v.push(Case::s(s));
                }
            }
        }
    }
    v
}

/// Value for the formatting checks; exponents mostly moderate, because
/// Display is positional.
fn fmt_value(r: &mut Rng) -> B {
    match r.below(20) {
        0 => gen::finite(r),
        1 => gen::small_int(r),
        2..=4 => {
            // short decimals, correctly rounded
            let n = r.range(1, 74) as usize;
            let d = dec::digits(r, n);
            let e = match r.below(6) {
                0 => r.range(-3000, 3000),
                1 => r.range(-500, 500),
                _ => r.range(-100, 40),
            };
            let b = parse_dec(&format!("{d}e{e}"));
            let b = if r.chance(1, 4) { gen::nudge(r, b) } else { b };
            if is_fin_nz(b) {
                b
            } else {
                ONE
            }
        }
        5 | 6 => {
            // dyadic fractions with few bits (exact ties in decimal)
            let n = r.range(1, 100) as u32;
            gen::compose(r.bool(), gen::odd_bits(r, n), -r.range(0, 90)).unwrap_or(ONE)
        }
        7 => gen::make(r.bool(), (BIAS + r.range(-900, 900)) as u32, (0, 0)),
        8 => {
            // integers: powers of ten and products
            let k = r.below(72) as u64;
            let b = parse_dec(&format!("{}e{k}", r.range(1, 999)));
            gen::nudge(r, b)
        }
        9 => {
            // around the boundary between integer and fractional formats
            gen::make(r.bool(), (BIAS + r.range(225, 250)) as u32, gen::frac(r))
        }
        10 => gen::make(r.bool(), (BIAS + r.range(-520, -200)) as u32, gen::frac(r)),
        11 => {
            if r.chance(1, 4) {
                gen::make(r.bool(), r.below(400) as u32, gen::frac(r))
            } else {
                gen::make(r.bool(), (BIAS + r.range(-6000, 6000)) as u32, gen::frac(r))
            }
        }
        _ => gen::make(r.bool(), (BIAS + r.range(-260, 260)) as u32, gen::frac(r)),
    }
}
/// A value that is, or whose halfway point to a neighbour is, a decimal of
/// about as many digits as the shortest output has: significands and halfway
/// points that are multiples of a great power of five.
fn decimal_boundary(r: &mut Rng) -> B {
    let t = r.range(0, 102);
    let mut p = Mpz::from_u(1);
    for _ in 0..t {
        p = p.mul(&Mpz::from_u(5));
    }
    let half = r.chance(2, 3);
    let bits = 237 + half as i64;
    let n = bits - p.bits() as i64;
    let mut m = (0, 0);
    for _ in 0..8 {
        // n or n + 1 bits
        let k = (n + r.range(0, 1)).clamp(1, 237) as u32;
        let c = p.mul(&Mpz::from_b(gen::odd_bits(r, k)));
        if c.bits() as i64 == bits {
            m = c.to_b();
            break;
        }
    }
    if m == (0, 0) {
        return ONE;
    }
    if half {
        m = (m.0 >> 1, m.0 << 127 | m.1 >> 1);
        if r.bool() {
            m = add_bits(m, 1);
        }
    }
    let q = ((t as f64 + 71.5 + r.range(-4, 4) as f64) * 3.321928094887362) as i64 - 237 + r.range(-2, 2);
    gen::compose(r.bool(), m, q).unwrap_or(ONE)
}
fn gen_fmt(r: &mut Rng) -> Case {
    let b = if r.chance(1, 12) { decimal_boundary(r) } else { fmt_value(r) };
    Case::f(&[if is_fin_nz(b) { b } else { ONE }])
}
fn gen_fmt_any_exp(r: &mut Rng) -> Case {
    Case::f(&[if r.chance(1, 6) { decimal_boundary(r) } else { gen::finite(r) }])
}
fn gen_fmt_prec(r: &mut Rng) -> Case {
    let b = gen_fmt(r).f[0];
    let p = match r.below(4) {
        0 => r.range(0, 3),
        1 => r.range(70, 75),
        _ => r.range(0, 75),
    };
    // values whose decimal expansion is close to a tie at this precision
    let b = match r.below(5) {
        0 => {
            let n = r.range(1, 40) as usize;
            let d = dec::digits(r, n);
            let b = parse_dec(&format!("{d}5e{}", -p - 1));
            gen::nudge(r, b)
        }
        1 => {
            // 99..9 just below a power of ten
            let n = r.range(1, 70) as usize;
            let e = r.range(-p - 4, 6) - n as i64;
            let b = parse_dec(&format!("{}{}e{e}", "9".repeat(n), r.below(10)));
            gen::nudge(r, b)
        }
        2 => {
            // exact ties: odd / 2^(p+1) has p+1 decimals ending in 5
            let n = r.range(1, 237) as u32;
            let b = gen::compose(r.bool(), gen::odd_bits(r, n), -p - 1).unwrap_or(ONE);
            if r.chance(1, 3) {
                gen::nudge(r, b)
            } else {
                b
            }
        }
        _ => b,
    };
    Case::fi(&[if is_fin_nz(b) { b } else { ONE }], &[p as i128])
}
fn gen_exp_prec(r: &mut Rng) -> Case {
    let p = match r.below(4) {
        0 => r.range(0, 3),
        1 => r.range(70, 75),
        _ => r.range(0, 75),
    };
    let b = match r.below(6) {
        0 => {
            // d.ddd5 at precision p
            let n = p as usize + 1;
            let d = dec::digits(r, n);
            let e = if r.chance(1, 8) { r.range(-3000, 3000) } else { r.range(-160, 110) };
            let b = parse_dec(&format!("{d}5e{e}"));
            gen::nudge(r, b)
        }
        1 => {
            let n = r.range(1, 74) as usize;
            let e = r.range(-200, 200);
            let b = parse_dec(&format!("{}{}e{e}", "9".repeat(n), r.below(10)));
            gen::nudge(r, b)
        }
        2 => {
            // few-bit integers times a power of two: exact ties
            let n = r.range(1, 60) as u32;
            gen::compose(r.bool(), gen::odd_bits(r, n), r.range(-100, 100)).unwrap_or(ONE)
        }
        3 if r.chance(1, 3) => gen::finite(r),
        _ => fmt_value(r),
    };
    Case::fi(&[if is_fin_nz(b) { b } else { ONE }], &[p as i128])
}
fn clip(s: &str) -> String {
    if s.chars().count() > 400 {
        let c: Vec<char> = s.chars().collect();
        let a: String = c[..150].iter().collect();
        let b: String = c[c.len() - 150..].iter().collect();
        format!("{a}...({} bytes)...{b}", s.len())
    } else {
        s.to_string()
    }
}
fn eqs(what: &str, got: &str, want: &str) -> Result<(), String> {
    ensure(got == want, || {
        format!("{what}: got {:?}, expected {:?}", clip(got), clip(want))
    })
}
fn sign(b: B) -> &'static str {
    if is_neg(b) {
        "-"
    } else {
        ""
    }
}
fn shortest(c: &Case) -> Res {
    let b = c.f[0];
    if !is_fin_nz(b) {
        return Ok(false);
    }
    let x = v(b);
    let cand = dec::shortest(b);
    let g = x.to_string();
    let ok = cand.iter().any(|(d, e)| g == format!("{}{}", sign(b), dec::positional(d, *e)));
    ensure(ok, || {
        format!(
            "Display: got {:?}, expected {:?}",
            clip(&g),
            clip(&format!("{}{}", sign(b), dec::positional(&cand[0].0, cand[0].1)))
        )
    })?;
    for (m, g) in [('e', format!("{x:e}")), ('E', format!("{x:E}"))] {
        let ok = cand.iter().any(|(d, e)| g == format!("{}{}", sign(b), dec::sci(d, *e, m)));
        ensure(ok, || {
            format!(
                "{m}: got {g:?}, expected {:?}",
                format!("{}{}", sign(b), dec::sci(&cand[0].0, cand[0].1, m))
            )
        })?;
    }
    Ok(true)
}
/// Only the scientific form (any exponent is cheap).
fn shortest_exp(c: &Case) -> Res {
    let b = c.f[0];
    if !is_fin_nz(b) {
        return Ok(false);
    }
    let g = format!("{:e}", v(b));
    let cand = dec::shortest(b);
    let ok = cand.iter().any(|(d, e)| g == format!("{}{}", sign(b), dec::sci(d, *e, 'e')));
    ensure(ok, || {
        format!(
            "e: got {g:?}, expected {:?}",
            format!("{}{}", sign(b), dec::sci(&cand[0].0, cand[0].1, 'e'))
        )
    })?;
    Ok(true)
}
fn roundtrip(c: &Case) -> Res {
    let b = c.f[0];
    if !is_fin_nz(b) {
        return Ok(false);
    }
    let x = v(b);
    let back = |g: String| -> Result<(), String> {
        let y = f256::from_str(&g).map_err(|_| format!("{g:?} does not parse"))?;
        same(&format!("parse({g:?})"), nb(y), b)
    };
    let small = lead_exp(b).abs() <= 2000;
    match c.i.first().map_or(0, |i| i.unsigned_abs() % 6) {
        1 => back(format!("{x:E}"))?,
        2 if small => back(format!("{x}"))?,
        3 if small => back(x.to_string())?,
        4 if small => back(format!("{x:+}"))?,
        // 73 digits determine the value
        5 => back(format!("{:.*e}", 72 + (b.1 % 4) as usize, x))?,
        _ => back(format!("{x:e}"))?,
    }
    Ok(true)
}
fn gen_roundtrip(r: &mut Rng) -> Case {
    let b = gen_fmt(r).f[0];
    let b = if lead_exp(b).abs() > 2000 && !r.chance(1, 100) {
        gen::with_exp(b, r.range(-800, 800))
    } else {
        b
    };
    Case::fi(&[b], &[r.range(0, 5) as i128])
}
fn fixed(c: &Case) -> Res {
    let (b, p) = (c.f[0], c.i[0].clamp(0, 75) as usize);
    if !is_finite(b) {
        return Ok(false);
    }
    let g = format!("{:.*}", p, v(b));
    let w = format!("{}{}", sign(b), dec::fixed(b, p));
    eqs(&format!("{{:.{p}}}"), &g, &w)?;
    Ok(is_fin_nz(b))
}
fn sciprec(c: &Case) -> Res {
    let (b, p) = (c.f[0], c.i[0].clamp(0, 75) as usize);
    if !is_finite(b) {
        return Ok(false);
    }
    let g = format!("{:.*e}", p, v(b));
    let w = format!("{}{}", sign(b), dec::scientific(b, p, 'e'));
    eqs(&format!("{{:.{p}e}}"), &g, &w)?;
    let g = format!("{:.*E}", p, v(b));
    eqs(&format!("{{:.{p}E}}"), &g, &w.replace('e', "E"))?;
    Ok(is_fin_nz(b))
}

#[derive(Clone, Copy)]
pub struct Flags {
    pub fill: char,
    pub align: Option<char>,
    pub plus: bool,
    pub zero: bool,
    pub width: Option<usize>,
    pub prec: Option<usize>,
    pub kind: u8, // 0 Display, 1 e, 2 E
}
/// Format `x` with run-time flags: the literal pieces are enumerated.
macro_rules! fmt_all {
    ($x:expr, $f:expr, $( ($fa:literal, $c:expr, $a:expr) ),* ) => {{
        let f: Flags = $f;
        let x = $x;
        let mut out = None;
        $(
            if f.fill == $c && f.align == $a {
                let w = f.width;
                let p = f.prec;
                macro_rules! go {
                    ($k:literal, $sg:literal, $z:literal) => {
                        match (w, p) {
                            (None, None) => format!(concat!("{:", $fa, $sg, $z, $k, "}"), x),
                            (Some(w), None) => format!(concat!("{:", $fa, $sg, $z, "1$", $k, "}"), x, w),
                            (None, Some(p)) => format!(concat!("{:", $fa, $sg, $z, ".1$", $k, "}"), x, p),
                            (Some(w), Some(p)) => format!(concat!("{:", $fa, $sg, $z, "1$.2$", $k, "}"), x, w, p),
                        }
                    };
                }
                out = Some(match (f.kind, f.plus, f.zero) {
                    (0, false, false) => go!("", "", ""),
                    (0, true, false) => go!("", "+", ""),
                    (0, false, true) => go!("", "", "0"),
                    (0, true, true) => go!("", "+", "0"),
                    (1, false, false) => go!("e", "", ""),
                    (1, true, false) => go!("e", "+", ""),
                    (1, false, true) => go!("e", "", "0"),
                    (1, true, true) => go!("e", "+", "0"),
                    (_, false, false) => go!("E", "", ""),
                    (_, true, false) => go!("E", "+", ""),
                    (_, false, true) => go!("E", "", "0"),
                    (_, true, true) => go!("E", "+", "0"),
                });
            }
        )*
        out.unwrap()
    }};
}
macro_rules! fmt_any {
    ($x:expr, $f:expr) => {
        fmt_all!($x, $f,
            ("", ' ', None), ("<", ' ', Some('<')), ("^", ' ', Some('^')), (">", ' ', Some('>')),
            ("*<", '*', Some('<')), ("*^", '*', Some('^')), ("*>", '*', Some('>')),
            ("é<", 'é', Some('<')), ("é^", 'é', Some('^')), ("é>", 'é', Some('>')),
            ("0<", '0', Some('<')), ("0^", '0', Some('^')), ("0>", '0', Some('>')))
    };
}
pub fn format_with(x: f256, f: Flags) -> String {
    fmt_any!(x, f)
}
pub fn flags_of(c: &Case) -> Flags {
    let g = |k: usize| c.i.get(k).copied().unwrap_or(0).max(0);
    let fill = [' ', ' ', '*', 'é', '0'][(g(0) % 5) as usize];
    let align = [None, Some('<'), Some('^'), Some('>')][(g(1) % 4) as usize];
    let align = if fill != ' ' && align.is_none() { Some('>') } else { align };
    Flags {
        fill,
        align,
        plus: g(2) & 1 == 1,
        zero: g(3) & 1 == 1,
        width: if g(4) == 0 { None } else { Some((g(4) % 400) as usize) },
        prec: if g(5) == 0 { None } else { Some((g(5) as usize - 1) % 76) },
        kind: (g(6) % 3) as u8,
    }
}
pub fn gen_flags(r: &mut Rng, f: Vec<B>) -> Case {
    let w = match r.below(4) {
        0 => 0,
        1 => r.range(1, 12),
        2 => r.range(1, 90),
        _ => r.range(1, 300),
    };
    let p = if r.bool() { 0 } else { r.range(1, 76) };
    let i = [
        r.range(0, 4), r.range(0, 3), r.range(0, 1), r.range(0, 1), w, p,
        r.range(0, 2),
    ];
    Case { f, i: i.iter().map(|x| *x as i128).collect(), s: vec![] }
}
/// The padding rules of std for numbers.
fn pad(f: Flags, neg: bool, body: &str, numeric: bool) -> String {
    let sg = if neg {
        "-"
    } else if f.plus {
        "+"
    } else {
        ""
    };
    let len = sg.len() + body.chars().count();
    let w = f.width.unwrap_or(0);
    if len >= w {
        return format!("{sg}{body}");
    }
    let n = w - len;
    if f.zero && numeric {
        return format!("{sg}{}{body}", "0".repeat(n));
    }
    let fill = |k: usize| f.fill.to_string().repeat(k);
    match f.align {
        Some('<') => format!("{sg}{body}{}", fill(n)),
        Some('^') => format!("{}{sg}{body}{}", fill(n / 2), fill(n - n / 2)),
        _ => format!("{}{sg}{body}", fill(n)),
    }
}
fn flags(c: &Case) -> Res {
    let b = c.f[0];
    if !is_fin_nz(b) {
        return Ok(false);
    }
    let f = flags_of(c);
    let got = fmt_any!(v(b), f);
    let bodies: Vec<String> = match (f.kind, f.prec) {
        (0, Some(p)) => vec![dec::fixed(b, p)],
        (1, Some(p)) => vec![dec::scientific(b, p, 'e')],
        (2, Some(p)) => vec![dec::scientific(b, p, 'E')],
        (k, None) => dec::shortest(b)
            .iter()
            .map(|(d, e)| match k {
                0 => dec::positional(d, *e),
                1 => dec::sci(d, *e, 'e'),
                _ => dec::sci(d, *e, 'E'),
            })
            .collect(),
        _ => unreachable!(),
    };
    let want: Vec<String> = bodies.iter().map(|s| pad(f, is_neg(b), s, true)).collect();
    ensure(want.contains(&got), || {
        format!("flags: got {:?}, expected {:?}", clip(&got), clip(&want[0]))
    })?;
    Ok(f.width.is_some() || f.plus)
}
/// Zeros, infinities and NaN format like those of f64.
fn special_flags(c: &Case) -> Res {
    let b = c.f[0];
    let mut f = flags_of(c);
    let d = if is_nan(b) {
        // the crate's own tests pin that NaN is never padded with zeroes
        let got = fmt_any!(v(b), f);
        f.zero = false;
        eqs("NaN", &got, &fmt_any!(f64::NAN, f))?;
        return Ok(true);
    } else if is_inf(b) {
        if is_neg(b) { f64::NEG_INFINITY } else { f64::INFINITY }
    } else if is_zero(b) {
        if is_neg(b) { -0.0 } else { 0.0 }
    } else {
        return Ok(false);
    };
    eqs("as f64", &fmt_any!(v(b), f), &fmt_any!(d, f))?;
    Ok(true)
}
/// Numbers that f64 holds exactly and prints in full agree with f64.
fn f64_flags(c: &Case) -> Res {
    let f = flags_of(c);
    // k/16 with |k| < 2^20: shortest digits are the same in both formats
    let k = c.i.get(7).copied().unwrap_or(0) % (1 << 20);
    let d = k as f64 / 16.0;
    let x = f256::from(d);
    eqs("as f64", &fmt_any!(x, f), &fmt_any!(d, f))?;
    Ok(k != 0)
}
fn gen_f64_flags(r: &mut Rng) -> Case {
    let mut c = gen_flags(r, vec![]);
    let n = r.range(1, 20);
    c.i.push(r.range(-(1 << n), 1 << n) as i128);
    c
}
fn gen_special_flags(r: &mut Rng) -> Case {
    let b = *r.pick(&[ZERO, neg(ZERO), INF, neg(INF), NAN]);
    gen_flags(r, vec![b])
}
fn grid_special_flags() -> Vec<Case> {
    let mut v = vec![];
    for b in [ZERO, neg(ZERO), INF, neg(INF), NAN] {
        for fill in 0..5 {
            for al in 0..4 {
                for pl in 0..2 {
                    for z in 0..2 {
                        for w in [0, 1, 3, 4, 5, 9, 10, 80] {
                            for p in [0, 1, 2, 4, 76] {
                                for k in 0..3 {
                                    v.push(Case::fi(&[b], &[fill, al, pl, z, w, p, k]));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
/// Precisions above 75 are documented to panic; they must not return wrong
/// text instead.
fn over_prec(c: &Case) -> Res {
    let (b, p) = (c.f[0], 76 + (c.i[0].unsigned_abs() % 400) as usize);
    if !is_fin_nz(b) {
        return Ok(false);
    }
    let x = v(b);
    let a = std::panic::catch_unwind(|| format!("{x:.p$}"));
    let e = std::panic::catch_unwind(|| format!("{x:.p$e}"));
    if let Ok(s) = a {
        eqs("{:.p}", &s, &format!("{}{}", sign(b), dec::fixed(b, p)))?;
    }
    if let Ok(s) = e {
        eqs("{:.p e}", &s, &format!("{}{}", sign(b), dec::scientific(b, p, 'e')))?;
    }
    Ok(true)
}

fn grid_fmt() -> Vec<Case> {
    edge_values().into_iter().filter(|b| is_fin_nz(*b)).map(|b| Case::f(&[b])).collect()
}
fn grid_roundtrip_wide() -> Vec<Case> {
    core_values()
        .into_iter()
        .filter(|b| is_fin_nz(*b) && !is_neg(*b))
        .map(|b| Case::fi(&[b], &[0]))
        .collect()
}
/// Every power of two near one and every power of ten.
fn grid_pows() -> Vec<Case> {
    let mut v = vec![];
    for e in -1400..1400i64 {
        let b = gen::make(false, (BIAS + e) as u32, (0, 0));
        for d in -1..=1 {
            v.push(Case::f(&[add_bits(b, d)]));
        }
    }
    for e in -400..400 {
        let b = parse_dec(&format!("1e{e}"));
        for d in -1..=1 {
            v.push(Case::f(&[add_bits(b, d)]));
        }
    }
    for be in (1..524287u32).step_by(97) {
        v.push(Case::f(&[gen::make(be & 1 == 1, be, (0, 0))]));
    }
    v
}
/// grid_fmt and the values for which the tables' precision matters most.
fn grid_hard() -> Vec<Case> {
    let mut g = grid_fmt();
    g.extend(crate::worst::shortest().into_iter().map(|b| Case::f(&[b])));
    g
}
fn grid_prec() -> Vec<Case> {
    let mut v = vec![];
    let mut vals: Vec<B> = core_values().into_iter().filter(|b| is_fin_nz(*b)).collect();
    for s in ["0.5", "1.5", "2.5", "0.25", "0.125", "9.5", "99.5", "0.05", "0.95", "0.995", "1e-75", "5e-76", "4.9e-76", "9.99e70", "1e71", "5e-1", "0.1", "1e75", "123456789.5"] {
        vals.push(parse_dec(s));
    }
    for b in vals {
        for p in 0..=75 {
            v.push(Case::fi(&[b], &[p]));
        }
    }
    v
}

pub fn ops(o: &mut Vec<Op>) {
    let mut op = |prop, name, n, gen, grid, check| {
        o.push(Op { prop, name, n, gen, grid, check })
    };
    op("C04", "parse", 240_000, |r| Case::s(dec::gen_number(r)), Some(grid_parse), parse);
    op("C04", "parse_wide", 290, |r| Case::s(dec::gen_number_wide(r)), Some(grid_parse_wide), parse);
    op("C04", "parse_long", 74, gen_long, None, parse);
    op("C04", "parse_very_long", 37, gen_very_long, None, parse);
    op("C04", "parse_cut", 220, gen_cut, None, parse);
    op("C05", "grammar", 2_300_000, |r| Case::s(dec::gen_grammar(r)), Some(grid_grammar as fn() -> Vec<Case>), grammar);
    op("C06", "shortest", 1_300_000, gen_fmt, Some(grid_pows), shortest);
    op("C06", "shortest_exp", 120_000, gen_fmt_any_exp, Some(grid_hard), shortest_exp);
    op("C06", "roundtrip", 450_000, gen_roundtrip, None, roundtrip);
    op("C06", "roundtrip_wide", 210, |r| Case::fi(&[gen::finite(r)], &[r.range(0, 5) as i128]), Some(grid_roundtrip_wide), roundtrip);
    op("C07", "fixed", 480_000, gen_fmt_prec, Some(grid_prec), fixed);
    op("C08", "scientific", 11_000_000, gen_exp_prec, Some(grid_prec), sciprec);
    op("C09", "flags", 200_000, |r| { let b = gen_fmt(r).f[0]; gen_flags(r, vec![b]) }, None, flags);
    op("C09", "special_flags", 20_000_000, gen_special_flags, Some(grid_special_flags), special_flags);
    op("C09", "f64_flags", 4_200_000, gen_f64_flags, None, f64_flags);
    op("C09", "over_prec", 4_100_000, |r| Case::fi(&[gen_fmt(r).f[0]], &[r.range(0, 400) as i128]), None, over_prec);
}
