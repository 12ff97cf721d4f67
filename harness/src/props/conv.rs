//! C01..C03: integers, f32/f64, bits and bytes.
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::{Op, Res};
use std::str::FromStr;

fn from_u(neg: bool, m: u128) -> B {
    let b = gen::from_u256((0, m), 0);
    if neg && m != 0 {
        crate::mp::neg(b)
    } else {
        b
    }
}
fn int_case(r: &mut Rng) -> Case {
    let bits = r.below(129) as u32;
    let m = if bits == 0 { 0 } else { r.u128() >> (128 - bits) };
    let m = match r.below(6) {
        0 => {
            if bits == 128 {
                u128::MAX
            } else {
                (1u128 << bits) - 1
            }
        }
        1 => 1u128.checked_shl(bits).unwrap_or(0),
        2 => m & (r.u128() & r.u128()),
        3 => *r.pick(&[
            0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
            i32::MAX as u128, 1 << 31, u32::MAX as u128, 1 << 32,
            i64::MAX as u128, 1 << 63, u64::MAX as u128, 1 << 64,
            i128::MAX as u128, 1 << 127, u128::MAX,
        ]),
        _ => m,
    };
    Case::fi(&[], &[m as i128])
}
fn ints(c: &Case) -> Res {
    let i = c.i[0];
    let u = i as u128;
    same("from(u128)", nb(f256::from(u)), from_u(false, u))?;
    same("from(i128)", nb(f256::from(i)), from_u(i < 0, i.unsigned_abs()))?;
    macro_rules! t {
        ($($t:ty),*) => {$(
            let x = i as $t;
            let w = from_u((x as i128) < 0, (x as i128).unsigned_abs());
            same(concat!("from(", stringify!($t), ")"), nb(f256::from(x)), w)?;
        )*};
    }
    t!(i8, i16, i32, i64, u8, u16, u32, u64);
    let x: f256 = (i as i64).into();
    let _ = x;
    Ok(u > 1)
}
fn grid_ints() -> Vec<Case> {
    let mut v = vec![];
    for k in 0..128 {
        for d in -2i128..=2 {
            let u = (1u128 << k).wrapping_add(d as u128);
            v.push(Case::fi(&[], &[u as i128]));
            v.push(Case::fi(&[], &[(u as i128).wrapping_neg()]));
        }
    }
    v
}
/// Every value of the small integer types.
fn grid_small_ints() -> Vec<Case> {
    (-32768i128..=65535).map(|i| Case::fi(&[], &[i])).collect()
}
fn order_ints(c: &Case) -> Res {
    let (a, b) = (c.i[0], c.i[1]);
    let (x, y) = (f256::from(a), f256::from(b));
    ensure(num(x, y) == Some(a.cmp(&b)), || {
        "conversion does not preserve order".to_string()
    })?;
    // exact sums of integers
    if let Some(s) = a.checked_add(b) {
        same("from(a) + from(b)", nb(x + y), nb(f256::from(s)))?;
    }
    Ok(a != b)
}
fn gen_two_ints(r: &mut Rng) -> Case {
    let a = int_case(r).i[0];
    let b = match r.below(3) {
        0 => a.wrapping_add(r.range(-3, 3) as i128),
        1 => a.wrapping_neg(),
        _ => int_case(r).i[0],
    };
    Case::fi(&[], &[a, b])
}

fn from_f64_bits(bits: u64) -> B {
    let x = f64::from_bits(bits);
    if x.is_nan() {
        return NAN;
    }
    let mut m = Mp::new(P);
    let t = m.set_d(x);
    finish(m, t)
}
fn floats(c: &Case) -> Res {
    let bits = c.i[0] as u64;
    let x = f64::from_bits(bits);
    same("from(f64)", nb(f256::from(x)), from_f64_bits(bits))?;
    let y = f32::from_bits(bits as u32);
    same("from(f32)", nb(f256::from(y)), from_f64_bits((y as f64).to_bits()))?;
    if !x.is_nan() {
        let y = f256::from(x);
        ensure(y.is_sign_negative() == x.is_sign_negative(), || "sign".into())?;
    }
    Ok(x.is_finite() && x != 0.0)
}
fn gen_float(r: &mut Rng) -> Case {
    // f64 in the low 64 bits; the low 32 bits double as an f32
    let m64 = match r.below(5) {
        0 => 0,
        1 => (1u64 << 52) - 1,
        2 => 1 << r.below(52),
        _ => r.u64() & ((1 << 52) - 1),
    };
    let e64 = match r.below(6) {
        0 => 0,
        1 => 2047,
        2 => r.range(1, 3) as u64,
        3 => r.range(2044, 2046) as u64,
        _ => r.below(2048),
    };
    let mut bits = (r.u64() & (1 << 63)) | (e64 << 52) | m64;
    if r.bool() {
        let m = match r.below(5) {
            0 => 0,
            1 => (1u32 << 23) - 1,
            2 => 1 << r.below(23),
            _ => r.u64() as u32 & ((1 << 23) - 1),
        };
        let e = match r.below(5) {
            0 => 0,
            1 => 255,
            2 => r.range(1, 3) as u32,
            _ => r.below(256) as u32,
        };
        let s = (r.u64() as u32) & (1 << 31);
        bits = (bits & !0xffff_ffff) | (s | (e << 23) | m) as u64;
    }
    Case::fi(&[], &[bits as i128])
}
fn float_ops(c: &Case) -> Res {
    // order and exact operations carry over from f64
    let (x, y) = (f64::from_bits(c.i[0] as u64), f64::from_bits(c.i[1] as u64));
    let (a, b) = (f256::from(x), f256::from(y));
    ensure(num(a, b) == x.partial_cmp(&y), || {
        "conversion does not preserve order".to_string()
    })?;
    ensure(a.is_nan() == x.is_nan() && a.is_finite() == x.is_finite(), || {
        "classification changed".to_string()
    })?;
    // rounding to integers agrees with f64, where it is exact
    if x.is_finite() {
        for (n, g, w) in [
            ("trunc", a.trunc(), x.trunc()),
            ("floor", a.floor(), x.floor()),
            ("ceil", a.ceil(), x.ceil()),
            ("round", a.round(), x.round()),
            ("round_tie_even", a.round_tie_even(), x.round_ties_even()),
        ] {
            let w = f256::from(w);
            ensure(g == w, || format!("{n} differs from f64"))?;
        }
    }
    if x.is_finite() && y.is_finite() && y != 0.0 {
        ensure(a % b == f256::from(x % y), || "x % y differs from f64".into())?;
    }
    Ok(x.is_finite() && y.is_finite())
}
fn gen_two_floats(r: &mut Rng) -> Case {
    let a = gen_float(r).i[0];
    let b = match r.below(4) {
        0 => a ^ (1 << 63),
        1 => (a as u64).wrapping_add(r.range(-3, 3) as u64) as i128,
        _ => gen_float(r).i[0],
    };
    let sh = r.range(-30, 30) as f64;
    let b = if r.chance(1, 3) {
        (f64::from_bits(a as u64) * sh.exp2()).to_bits() as i128
    } else {
        b
    };
    Case::fi(&[], &[a, b])
}

fn be_bytes(b: B) -> [u8; 32] {
    let mut o = [0u8; 32];
    for k in 0..16 {
        o[k] = (b.0 >> (120 - 8 * k)) as u8;
        o[16 + k] = (b.1 >> (120 - 8 * k)) as u8;
    }
    o
}
fn bytes(c: &Case) -> Res {
    let b = c.f[0];
    let x = f256::from_bits(b);
    let g = x.to_bits();
    ensure(g == b, || format!("from_bits/to_bits: {}", hex(g)))?;
    let be = be_bytes(b);
    let mut le = be;
    le.reverse();
    ensure(x.to_be_bytes() == be, || "to_be_bytes".into())?;
    ensure(x.to_le_bytes() == le, || "to_le_bytes".into())?;
    let ne = if cfg!(target_endian = "little") { le } else { be };
    ensure(x.to_ne_bytes() == ne, || "to_ne_bytes".into())?;
    for (n, y) in [
        ("from_be_bytes", f256::from_be_bytes(be)),
        ("from_le_bytes", f256::from_le_bytes(le)),
        ("from_ne_bytes", f256::from_ne_bytes(ne)),
    ] {
        let g = y.to_bits();
        ensure(g == b, || format!("{n}: {}", hex(g)))?;
    }
    Ok(b.0 != 0 && b.1 != 0)
}
fn gen_bytes(r: &mut Rng) -> Case {
    let b = match r.below(4) {
        0 => {
            // one set bit or byte
            let s = shl256((0, if r.bool() { 1 } else { 0xff }), r.below(256) as u32);
            s
        }
        1 => (r.u128(), r.u128()),
        _ => gen::pattern(r),
    };
    Case::f(&[b])
}
fn parts(c: &Case) -> Res {
    let b = c.f[0];
    if is_zero(b) {
        let g = v(b).as_sign_exp_signif();
        ensure(g == (is_neg(b) as u32, 0, (0, 0)), || format!("as_sign_exp_signif of zero: {g:?}"))?;
        same("from_sign_exp_signif", nb(f256::from_sign_exp_signif(g.0, g.1, g.2)), b)?;
    }
    if !is_fin_nz(b) {
        return Ok(false);
    }
    let (s, t, sig) = v(b).as_sign_exp_signif();
    let (_, m, q) = decode(b);
    let z = tz256(m);
    let w = (is_neg(b) as u32, (q + z as i64) as i32, shr256(m, z));
    ensure((s, t, sig) == w, || {
        format!("as_sign_exp_signif: got {:?}, expected {w:?}", (s, t, sig))
    })?;
    let y = f256::from_sign_exp_signif(s, t, sig);
    same("from_sign_exp_signif", nb(y), b)?;
    // other representations of the same number
    let lz = lz256(sig);
    if lz > 19 {
        let k = (c.i[0] as u32) % (lz - 18);
        let (t2, sig2) = (t - k as i32, shl256(sig, k));
        if t2 as i64 >= ETINY {
            let y = f256::from_sign_exp_signif(s, t2, sig2);
            same("from_sign_exp_signif (unreduced)", nb(y), b)?;
        }
    }
    Ok(true)
}
fn grid_parts() -> Vec<Case> {
    edge_values().into_iter().map(|b| Case::fi(&[b], &[0])).collect()
}
/// Sign, exponent and any 256-bit significand: the value nearest to what they
/// denote.
fn any_parts(c: &Case) -> Res {
    let m = c.f[0];
    let (s, t) = ((c.i[0] & 1) as u32, c.i[1] as i32);
    if m == (0, 0) {
        // (the encoding of zero has the exponent 0, that of infinity 262144;
        // other exponents have no meaning with a significand of zero)
        if t == 0 {
            let w = if s == 1 { crate::mp::neg(ZERO) } else { ZERO };
            same("from_sign_exp_signif", nb(f256::from_sign_exp_signif(s, t, m)), w)?;
        }
        return Ok(false);
    }
    let z = Mpz::from_b(m);
    let mut w = Mp::new(P);
    let tern = w.set_z_2exp(&z, t as i64);
    let w = finish(w, tern);
    let w = if s == 1 { crate::mp::neg(w) } else { w };
    same("from_sign_exp_signif", nb(f256::from_sign_exp_signif(s, t, m)), w)?;
    Ok(is_fin_nz(w))
}
fn gen_any_parts(r: &mut Rng) -> Case {
    let n = r.range(1, 256) as u32;
    let m = match r.below(7) {
        0 => gen::sig(r),
        1 if n < 238 => gen::odd_bits(r, n),
        2 | 3 => {
            // j bits too many: structured head, tail at or next to a half
            let j = r.range(1, 19) as u32;
            let h = shl256(gen::sig(r), j);
            let half = 1u128 << (j - 1);
            let t = match r.below(5) {
                0 => half,
                1 => half - 1,
                2 => (half + 1) & (2 * half - 1),
                3 => 2 * half - 1,
                _ => r.u128() & (2 * half - 1),
            };
            (h.0, h.1 | t)
        }
        4 => {
            // structured, any length
            let h = gen::sig(r);
            shr256(shl256(h, 19), 256 - n)
        }
        5 if r.chance(1, 100) => (0, 0),
        _ => shr256((r.u128() | 1 << 127, r.u128()), 256 - n),
    };
    if m == (0, 0) {
        return Case::fi(&[m], &[r.below(2) as i128, 0]);
    }
    let k = 255 - lz256(m) as i64;
    let t = match r.below(4) {
        0 => ETINY - k + r.range(-3, 240),
        1 => 262143 - k + r.range(-3, 3),
        _ => r.range(-262900, 262300),
    };
    Case { f: vec![m], i: vec![r.below(2) as i128, t as i128], s: vec![] }
}
/// Debug output of a finite value shows parts that denote it.
fn debug(c: &Case) -> Res {
    let b = c.f[0];
    let x = v(b);
    let g = format!("{x:?}");
    if !is_finite(b) {
        ensure(g == format!("{:?}", format!("{x}")), || format!("Debug shows {g}"))?;
        return Ok(false);
    }
    let n: Vec<u128> = g
        .split(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
        .filter(|t| !t.is_empty())
        .map(|t| {
            let t = t.strip_prefix('-').unwrap_or(t);
            match t.strip_prefix("0x") {
                Some(h) => u128::from_str_radix(h, 16).unwrap_or(u128::MAX),
                None => t.parse().unwrap_or(u128::MAX),
            }
        })
        .collect();
    ensure(n.len() == 4, || format!("Debug shows {g}"))?;
    let e = n[1] as i64 * if g.contains(", -") { -1 } else { 1 };
    let z = Mpz::from_b((n[2], n[3]));
    let mut w = Mp::new(P);
    let t = w.set_z_2exp(&z, e);
    ensure(t == 0, || format!("Debug shows {g}"))?;
    let w = finish(w, t);
    let w = if n[0] == 1 { crate::mp::neg(w) } else { w };
    same(&format!("value of Debug output {g}"), w, b)?;
    Ok(is_fin_nz(b))
}
fn num_traits_ops(c: &Case) -> Res {
    use num_traits::{Num, One, Zero};
    let b = c.f[0];
    let x = v(b);
    ensure(Zero::is_zero(&x) == is_zero(b), || "is_zero".into())?;
    ensure(One::is_one(&x) == (b == ONE), || "is_one".into())?;
    same("zero()", nb(<f256 as Zero>::zero()), ZERO)?;
    same("one()", nb(<f256 as One>::one()), ONE)?;
    let s = &c.s[0];
    let p = f256::from_str(s);
    let q = <f256 as Num>::from_str_radix(s, 10);
    let t = f256::try_from(s.as_str());
    match (p, q, t) {
        (Ok(p), Ok(q), Ok(t)) => {
            same("from_str_radix", nb(q), nb(p))?;
            same("try_from", nb(t), nb(p))?;
        }
        (Err(_), Err(_), Err(_)) => {}
        _ => return Err("from_str, from_str_radix and try_from disagree".into()),
    }
    let radix = c.i[0] as u32;
    if radix != 10 {
        ensure(<f256 as Num>::from_str_radix(s, radix).is_err(), || {
            format!("radix {radix} accepted")
        })?;
    }
    Ok(is_fin_nz(b))
}
fn gen_num_traits(r: &mut Rng) -> Case {
    let b = match r.below(4) {
        0 => gen::nudge(r, ONE),
        1 => {
            let z = if r.bool() { ZERO } else { neg(ZERO) };
            gen::nudge(r, z)
        }
        _ => gen::pattern(r),
    };
    let s = match r.below(64) {
        0 => crate::dec::gen_number(r),
        1..=20 => crate::dec::gen_grammar(r),
        _ => {
            // short literals
            let n = r.range(1, 30);
            let mut t = String::new();
            if r.chance(1, 3) {
                t.push(if r.bool() { '-' } else { '+' });
            }
            let dot = r.range(-10, n);
            for k in 0..n {
                if k == dot {
                    t.push('.');
                }
                t.push((b'0' + r.below(10) as u8) as char);
            }
            if r.bool() {
                t += &format!("e{}", r.range(-200, 200));
            }
            t
        }
    };
    Case { f: vec![b], i: vec![r.range(2, 36) as i128], s: vec![s] }
}

pub fn ops(o: &mut Vec<Op>) {
    let mut op = |prop, name, n, gen, grid, check| {
        o.push(Op { prop, name, n, gen, grid, check })
    };
    op("C01", "from_int", 170_000_000, int_case, Some(grid_ints as fn() -> Vec<Case>), ints);
    op("C01", "from_small_int", 256, int_case, Some(grid_small_ints), ints);
    op("C01", "int_order_sum", 170_000_000, gen_two_ints, None, order_ints);
    op("C02", "from_float", 150_000_000, gen_float, None, floats);
    op("C02", "f64_agreement", 130_000_000, gen_two_floats, None, float_ops);
    op("C03", "bytes", 170_000_000, gen_bytes, Some(grid1), bytes);
    op("C03", "parts", 160_000_000, |r| Case::fi(&[gen::value(r)], &[r.below(256) as i128]), Some(grid_parts), parts);
    op("C03", "any_parts", 60_000_000, gen_any_parts, None, any_parts);
    op("C03", "debug", 8_000_000, |r| Case::f(&[gen::pattern(r)]), Some(grid1), debug);
    op("E03", "num_traits", 2_700_000, gen_num_traits, None, num_traits_ops);
}
