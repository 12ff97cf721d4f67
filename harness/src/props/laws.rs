//! F01: algebraic laws that need no reference model; G01: every operation
//! returns on every bit pattern.
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::{Op, Res};
use std::str::FromStr;

fn law_pairs(c: &Case) -> Res {
    let (p, q) = (c.f[0], c.f[1]);
    let (x, y) = (v(p), v(q));
    same("x+y = y+x", nb(x + y), nb(y + x))?;
    same("x*y = y*x", nb(x * y), nb(y * x))?;
    same("(-x)*y = -(x*y)", nb(-x * y), canon(nb(-(x * y))))?;
    same("(-x)/y = -(x/y)", nb(-x / y), canon(nb(-(x / y))))?;
    same("-x - y = -(x+y)", zero_pos(nb(-x - y)), zero_pos(nb(-(x + y))))?;
    same("x-y = x+(-y)", nb(x - y), nb(x + -y))?;
    same("fma(x,y,-0) = x*y", nb(x.mul_add(y, if mulneg(p, q) { f256::NEG_ZERO } else { f256::ZERO })), nb(x * y))?;
    same("fma(x,1,y) = x+y", nb(x.mul_add(f256::ONE, y)), nb(x + y))?;
    same("sos(x,y) = sos(y,x)", nb(x.sum_of_squares(y)), nb(y.sum_of_squares(x)))?;
    same("square_add = fma(x,x,y)", nb(x.square_add(y)), nb(x.mul_add(x, y)))?;
    if is_fin_nz(p) && is_fin_nz(q) {
        ensure(num_lt(y, x) == num_lt(-x, -y), || "negation reverses the order".into())?;
        ensure(num_lt(f256::ZERO, x - y) == num_lt(y, x), || "x-y > 0 iff x > y".into())?;
        ensure((x - y == f256::ZERO) == (x == y), || "x-y = 0 iff x = y".into())?;
        // close values: the difference is exact
        if is_neg(p) == is_neg(q) && (lead_exp(p) - lead_exp(q)).abs() <= 1 {
            let (a, b) = (x.abs(), y.abs());
            if num_le(a.div2(), b) && num_le(b, a.mul2()) && num_le(b.div2(), a) && num_le(a, b.mul2()) {
                same("(x-y)+y = x", zero_pos(nb((x - y) + y)), p)?;
                same("y-(y-x) = x", zero_pos(nb(y - (y - x))), p)?;
            }
        }
        // the error of a sum is a value: TwoSum loses nothing
        if lead_exp(p).abs() < 260000 && lead_exp(q).abs() < 260000 {
            let s = x + y;
            let bb = s - x;
            let e = (x - (s - bb)) + (y - bb);
            same("s + e = x + y", zero_pos(nb(s + e)), zero_pos(nb(s)))?;
            let (e2, w) = if abs(p) >= abs(q) { (x - s + y, x) } else { (y - s + x, y) };
            let _ = w;
            same("TwoSum = Fast2Sum", zero_pos(nb(e)), zero_pos(nb(e2)))?;
        }
        // the error of a product is a value: x*y = r + e exactly
        if lead_exp(p) + lead_exp(q) < 262000 && lead_exp(p) + lead_exp(q) > -261000 {
            let r = x * y;
            let e = x.mul_add(y, -r);
            same("r + e = r", nb(r + e), nb(r))?;
            same("fma(x,y,-e) = r", nb(x.mul_add(y, -e)), nb(r))?;
            same("fma(x,y,-r-e) = 0", abs(nb(x.mul_add(y, -r) - e)), ZERO)?;
        }
    }
    Ok(is_fin_nz(p) && is_fin_nz(q))
}
fn mulneg(p: B, q: B) -> bool {
    is_neg(p) != is_neg(q)
}
fn zero_pos(b: B) -> B {
    if is_zero(b) {
        ZERO
    } else {
        b
    }
}
fn law_unary(c: &Case) -> Res {
    let b = c.f[0];
    let x = v(b);
    same("x/1 = x", nb(x / f256::ONE), canon(b))?;
    same("x*1 = x", nb(x * f256::ONE), canon(b))?;
    same("1*x = x", nb(f256::ONE * x), canon(b))?;
    same("x*-1 = -x", nb(x * f256::NEG_ONE), canon(nb(-x)))?;
    same("x/-1 = -x", nb(x / f256::NEG_ONE), canon(nb(-x)))?;
    same("x + -0 = x", nb(x + f256::NEG_ZERO), canon(b))?;
    same("-0 + x = x", nb(f256::NEG_ZERO + x), canon(b))?;
    same("x - 0 = x", nb(x - f256::ZERO), canon(b))?;
    same("fma(x,1,-0) = x", nb(x.mul_add(f256::ONE, f256::NEG_ZERO)), canon(b))?;
    same("fma(1,x,-0) = x", nb(f256::ONE.mul_add(x, f256::NEG_ZERO)), canon(b))?;
    same("sos(x,0) = square", nb(x.sum_of_squares(f256::ZERO)), nb(x.square()))?;
    same("sos(0,x) = square", nb(f256::ZERO.sum_of_squares(x)), nb(x.square()))?;
    same("square(-x) = square", nb((-x).square()), nb(x.square()))?;
    same("square = x*x", nb(x.square()), nb(x * x))?;
    same("1/x = recip", nb(f256::ONE / x), nb(x.recip()))?;
    same("recip(-x) = -recip", nb((-x).recip()), canon(nb(-x.recip())))?;
    same("mul_pow2(1) = mul2", nb(x.mul_pow2(1)), nb(x.mul2()))?;
    same("div_pow2(1) = div2", nb(x.div_pow2(1)), nb(x.div2()))?;
    same("trunc(-x)", nb((-x).trunc()), nb(-x.trunc()))?;
    same("round(-x)", nb((-x).round()), nb(-x.round()))?;
    same("round_tie_even(-x)", nb((-x).round_tie_even()), nb(-x.round_tie_even()))?;
    same("x*2 = x+x", nb(x * f256::TWO), nb(x + x))?;
    same("mul2 = x+x", nb(x.mul2()), nb(x + x))?;
    same("x/2 = x*0.5", nb(x / f256::TWO), nb(x * f256::from(0.5)))?;
    same("div2 = x/2", nb(x.div2()), nb(x / f256::TWO))?;
    if is_fin_nz(b) {
        same("x/x", nb(x / x), ONE)?;
        same("x-x", nb(x - x), ZERO)?;
        same("x%x", abs(nb(x % x)), ZERO)?;
        let (f, k, t) = (x.floor(), x.ceil(), x.trunc());
        ensure(num_le(f, x) && num_le(x, k) && t.abs() <= x.abs(), || "floor <= x <= ceil".into())?;
        ensure(k - f <= f256::ONE || x.abs() >= v(gen::make(false, (BIAS + 236) as u32, (0, 0))), || "ceil-floor <= 1".into())?;
        ensure(-((-x).floor()) == k, || "-floor(-x) = ceil(x)".into())?;
        let (i, fr) = x.split();
        ensure(i == t && i + fr == x && fr.abs() < f256::ONE, || "split".into())?;
        for (n, r) in [("round", x.round()), ("round_tie_even", x.round_tie_even())] {
            ensure(r == f || r == k, || format!("{n} is not an adjacent integer"))?;
            ensure((x - r).abs() <= f256::from(0.5), || format!("{n} is further than 1/2"))?;
            ensure(r.trunc() == r, || format!("{n} is not an integer"))?;
        }
        let u = x.ulp();
        if b != MAXV && abs(b) != MAXV {
            let nx = v(add_bits(b, 1));
            ensure((nx - x).abs() == u, || "next(x) - x = ulp(x)".into())?;
        }
        if lead_exp(b).abs() < 130000 {
            same("sqrt(x*x) = |x|", nb((x * x).sqrt()), abs(b))?;
        }
        if !is_neg(b) {
            let s = x.sqrt();
            let d = s.square_add(-x);
            // |s^2 - x| <= s * ulp(s) (half an ulp each side, plus slack)
            if !is_sub(b) && lead_exp(b) > EMIN + 480 {
                ensure(d.abs() <= s * s.ulp(), || "sqrt(x)^2 is not close to x".into())?;
            }
            ensure((s > f256::ZERO) && s.is_normal(), || "sqrt not positive normal".into())?;
        }
    }
    Ok(is_fin_nz(b))
}
/// Rounding is monotonic: a <= b implies f(a) <= f(b).
fn law_mono(c: &Case) -> Res {
    let (p, q, z) = (c.f[0], c.f[1], c.f[2]);
    if is_nan(p) || is_nan(q) || is_nan(z) {
        return Ok(false);
    }
    let (a, b) = if num_le(v(p), v(q)) { (v(p), v(q)) } else { (v(q), v(p)) };
    let z = v(z);
    let le = |n: &str, x: f256, y: f256| {
        ensure(x.is_nan() || y.is_nan() || num_le(x, y), || format!("{n} is not monotonic"))
    };
    le("a+z", a + z, b + z)?;
    le("a-z", a - z, b - z)?;
    let zp = z.abs();
    le("z-a", z - b, z - a)?;
    le("z*a", zp * a, zp * b)?;
    le("-|z|*a", -zp * b, -zp * a)?;
    {
        let (s, t) = if num_le(a.abs(), b.abs()) { (a, b) } else { (b, a) };
        le("square", s.square(), t.square())?;
        le("square_add", s.square_add(z), t.square_add(z))?;
        le("sum_of_squares", s.sum_of_squares(z), t.sum_of_squares(z))?;
        le("|z|/|a|", zp / t.abs(), zp / s.abs())?;
        le("recip", t.abs().recip(), s.abs().recip())?;
        le("fma(z,z,a)", z.mul_add(z, a), z.mul_add(z, b))?;
    }
    le("a*z", a * zp, b * zp)?;
    le("a/z", a / zp, b / zp)?;
    le("sqrt", a.abs().min(b.abs()).sqrt(), a.abs().max(b.abs()).sqrt())?;
    le("trunc", a.trunc(), b.trunc())?;
    le("floor", a.floor(), b.floor())?;
    le("ceil", a.ceil(), b.ceil())?;
    le("round", a.round(), b.round())?;
    le("round_tie_even", a.round_tie_even(), b.round_tie_even())?;
    le("fma", a.mul_add(zp, z), b.mul_add(zp, z))?;
    le("div2", a.div2(), b.div2())?;
    le("mul2", a.mul2(), b.mul2())?;
    Ok(p != q && is_fin_nz(p) && is_fin_nz(q))
}
fn gen_mono(r: &mut Rng) -> Case {
    let x = gen::value(r);
    let y = if is_finite(x) && r.chance(2, 3) { gen::nudge(r, x) } else { gen::value(r) };
    let z = if is_fin_nz(x) && r.bool() {
        let d = r.range(-245, 245);
        gen::with_exp(gen::finite(r), lead_exp(x) + d)
    } else {
        gen::value(r)
    };
    Case::f(&[x, y, z])
}
fn law_rem(c: &Case) -> Res {
    let (p, q) = (c.f[0], c.f[1]);
    let (x, y) = (v(p), v(q));
    if !is_fin_nz(p) || !is_fin_nz(q) {
        return Ok(false);
    }
    let m = x % y;
    ensure(m.abs() < y.abs(), || "|x % y| < |y|".into())?;
    ensure(m.is_sign_negative() == x.is_sign_negative(), || "sign of x % y".into())?;
    same("(-x) % y = -(x % y)", nb(-x % y), nb(-m))?;
    same("x % -y = x % y", nb(x % -y), nb(m))?;
    same("(x % y) % y = x % y", nb(m % y), nb(m))?;
    same("(x*2) % (y*2)", nb(x.mul2() % y.mul2()), if is_inf(nb(x.mul2())) { NAN } else { nb(m.mul2()) })?;
    Ok(abs(p) >= abs(q))
}
fn law_trig(c: &Case) -> Res {
    let b = c.f[0];
    let x = v(b);
    let (s, k) = x.sin_cos();
    same("sin_cos.0 = sin", nb(s), nb(x.sin()))?;
    same("sin_cos.1 = cos", nb(k), nb(x.cos()))?;
    if !is_finite(b) {
        return Ok(false);
    }
    same("sin(-x)", nb((-x).sin()), nb(-s))?;
    same("cos(-x)", nb((-x).cos()), nb(k))?;
    same("tan(-x)", nb((-x).tan()), nb(-x.tan()))?;
    let at = x.atan();
    same("atan(-x)", nb((-x).atan()), nb(-at))?;
    ensure(at.abs() <= ::f256::consts::FRAC_PI_2, || "|atan| <= pi/2".into())?;
    ensure(is_zero(b) || ulp_dist(nb(x.atan2(&f256::ONE)), nb(at)) <= 1, || "atan2(x,1) = atan".into())?;
    if x != f256::ZERO && lead_exp_or(b) > -200000 {
        let r = x.abs().recip().atan();
        ensure(ulp_dist(nb(at.abs() + r), nb(::f256::consts::FRAC_PI_2)) <= 4, || "atan(x) + atan(1/x) = pi/2".into())?;
    }
    ensure(s.abs() <= f256::ONE && k.abs() <= f256::ONE, || "|sin|,|cos| <= 1".into())?;
    let one = s.sum_of_squares(k);
    ensure((one - f256::ONE).abs() <= f256::EPSILON.mul2(), || "sin^2+cos^2 = 1".into())?;
    let t = s / k;
    let d = ulp_dist(nb(t), nb(x.tan()));
    ensure(d <= 4, || format!("tan differs from sin/cos by {d} ulp"))?;
    if x.abs() <= f256::ONE {
        same("asin(-x)", nb((-x).asin()), nb(-x.asin()))?;
        let sum = x.asin() + x.acos();
        ensure(ulp_dist(nb(sum), nb(::f256::consts::FRAC_PI_2)) <= 4, || "asin + acos = pi/2".into())?;
        let sum = x.acos() + (-x).acos();
        ensure(ulp_dist(nb(sum), nb(::f256::consts::PI)) <= 4, || "acos(x) + acos(-x) = pi".into())?;
    }
    Ok(is_fin_nz(b))
}

/// A result that is NaN is NaN to every predicate, and the canonical one; any
/// other belongs to exactly one class.
fn form(what: &str, x: f256) -> Result<(), String> {
    let b = nb(x);
    if is_nan(b) {
        ensure(
            b == NAN && x.is_nan() && !x.is_finite() && !x.is_infinite() && !x.is_normal()
                && !x.is_subnormal() && !x.eq_zero() && x.classify() == std::num::FpCategory::Nan && x != x,
            || format!("{what}: {} is not the canonical NaN or not recognised", hex(b)),
        )
    } else {
        let n = [x.eq_zero(), x.is_subnormal(), x.is_normal(), x.is_infinite()];
        ensure(!x.is_nan() && n.iter().filter(|t| **t).count() == 1 && x == x, || {
            format!("{what}: {} does not belong to exactly one class", hex(b))
        })
    }
}
/// Arithmetic, rounding, scaling and comparison return on any operands.
fn total(c: &Case) -> Res {
    let (p, q, z) = (c.f[0], c.f[1], c.f[2]);
    let (x, y, w) = (v(p), v(q), v(z));
    let n = c.i[0] as u32;
    // operands that are NaN may come back as they are
    let keep = is_nan(p) || is_nan(q) || is_nan(z);
    let rs = [
        ("+", x + y), ("-", x - y), ("*", x * y), ("/", x / y), ("mul_add", x.mul_add(y, w)),
        ("sum_of_squares", x.sum_of_squares(y)), ("square_add", x.square_add(y)), ("square", x.square()),
        ("sqrt", x.sqrt()), ("recip", x.recip()), ("neg", -x), ("abs", x.abs()), ("trunc", x.trunc()),
        ("floor", x.floor()), ("ceil", x.ceil()), ("round", x.round()), ("round_tie_even", x.round_tie_even()),
        ("fract", x.fract()), ("split", x.split().0), ("mul2", x.mul2()), ("div2", x.div2()),
        ("mul_pow2", x.mul_pow2(n)), ("div_pow2", x.div_pow2(n)), ("max", x.max(y)), ("min", x.min(y)),
        ("ulp", x.ulp()), ("to_degrees", x.to_degrees()), ("to_radians", x.to_radians()),
    ];
    if !keep {
        for (t, r) in rs {
            form(t, r)?;
        }
    }
    let far = is_fin_nz(p) && is_fin_nz(q) && lead_exp(p) - lead_exp(q) > 2000;
    if !far || c.i[1] % 512 == 0 {
        let r = x % y;
        if !keep {
            form("%", r)?;
        }
    }
    let _ = (x == y, x < y, x.partial_cmp(&y), x.total_cmp(&y), x.classify(), x.to_bits(), x.to_be_bytes());
    if !keep && num_le(x, y) {
        form("clamp", w.clamp(x, y))?;
    }
    Ok(is_fin_nz(p) && is_fin_nz(q))
}
fn gen_total(r: &mut Rng) -> Case {
    let (x, y, z) = match r.below(12) {
        0 => {
            let (x, y) = gen::pair_add(r);
            (x, y, gen::pattern(r))
        }
        1 => {
            let (x, y) = gen::pair_mul(r);
            (x, y, gen::pattern(r))
        }
        2 => {
            let (x, y) = gen::pair_div(r);
            (x, y, gen::pattern(r))
        }
        3 | 4 => {
            let (x, y) = gen::pair_rem(r);
            (x, y, gen::pattern(r))
        }
        5 | 6 => gen::triple_fma(r),
        7 => {
            let (x, y) = gen::pair_square_add(r);
            (x, y, gen::value(r))
        }
        8 => {
            let (x, y) = gen::pair_sos(r);
            (x, y, gen::value(r))
        }
        9 => (gen::sqrt_operand(r), gen::finite(r), gen::value(r)),
        10 => (gen::int_operand(r), gen::finite(r), gen::value(r)),
        _ => (gen::pattern(r), gen::pattern(r), gen::pattern(r)),
    };
    let n = match r.below(4) {
        0 => r.u64() as u32,
        1 => r.below(600) as u32,
        2 => gen::dist(r, 0, 600).max(0) as u32,
        _ => r.below(530000) as u32,
    };
    Case::fi(&[x, y, z], &[n as i128, r.below(1 << 30) as i128])
}
/// The elementary functions return on any argument.
fn total_fn(c: &Case) -> Res {
    let (p, q) = (c.f[0], c.f[1]);
    let (x, y) = (v(p), v(q));
    let keep = is_nan(p) || is_nan(q);
    let t = x.sin_cos();
    for (t, r) in [
        ("ln", x.ln()), ("log2", x.log2()), ("log10", x.log10()), ("sin", x.sin()), ("cos", x.cos()),
        ("tan", x.tan()), ("sin_cos", t.0), ("sin_cos", t.1), ("asin", x.asin()), ("acos", x.acos()),
        ("atan", x.atan()), ("atan2", x.atan2(&y)),
    ] {
        if !keep {
            form(t, r)?;
        }
    }
    Ok(is_fin_nz(p) && is_fin_nz(q))
}
fn gen_total_fn(r: &mut Rng) -> Case {
    let x = match r.below(5) {
        0 => gen::pattern(r),
        1 | 2 => super::transc::unit_arg(r).f[0],
        3 => super::transc::log_arg(r).f[0],
        _ => gen::trig_arg(r),
    };
    let y = if is_fin_nz(x) && r.bool() {
        let d = gen::dist(r, -300, 300);
        gen::with_exp(gen::finite(r), lead_exp(x) + d)
    } else {
        gen::pattern(r)
    };
    Case::f(&[x, y])
}
/// Formatting returns on any value with any flags, and what it prints parses.
fn total_fmt(c: &Case) -> Res {
    let b = c.f[0];
    let x = v(b);
    let f = super::text::flags_of(c);
    let s = super::text::format_with(x, f);
    ensure(s.chars().count() >= f.width.unwrap_or(0).max(1), || format!("{s:?} is too short"))?;
    let t = match f.kind {
        0 if is_nan(b) || is_inf(b) || lead_exp_or(b).abs() < 3000 => format!("{x}"),
        0 => format!("{x:?}"),
        1 => format!("{x:e}"),
        _ => format!("{x:E}"),
    };
    ensure(!t.is_empty(), || "empty text".into())?;
    if is_nan(b) {
        ensure(s.contains("NaN"), || format!("NaN prints as {s:?}"))?;
    }
    let back = if f.fill == ' ' && !s.contains(' ') && !(f.zero && is_inf(b)) { Some(&s) } else { None };
    if let Some(s) = back {
        ensure(f256::from_str(s).is_ok(), || format!("{s:?} does not parse"))?;
    }
    Ok(is_fin_nz(b))
}
fn lead_exp_or(b: B) -> i64 {
    if is_fin_nz(b) {
        lead_exp(b)
    } else {
        0
    }
}
fn gen_total_fmt(r: &mut Rng) -> Case {
    let x = match r.below(200) {
        0 => gen::pattern(r),
        1 => gen::make(r.bool(), gen::bexp(r), gen::frac(r)),
        k => {
            let e = match k % 4 {
                0 => r.range(-40, 40),
                1 => r.range(200, 300),
                2 => r.range(-300, 300),
                _ => gen::dist(r, -700, 700).clamp(-2000, 2000),
            };
            gen::make(r.bool(), (BIAS + e) as u32, gen::frac(r))
        }
    };
    super::text::gen_flags(r, vec![x])
}
/// Parsing returns on arbitrary text.
fn parse_total(c: &Case) -> Res {
    let r = f256::from_str(&c.s[0]);
    if let Ok(x) = r {
        let _ = x.to_bits();
        return Ok(true);
    }
    Ok(c.s[0].len() > 2)
}
fn gen_text(r: &mut Rng) -> Case {
    let n = r.below(40) as usize;
    let s = match r.below(4) {
        0 => (0..n).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('?')).collect(),
        1 => (0..n).map(|_| *r.pick(&['0', '1', '9', '.', 'e', '-', '+', '5', '0', '0'])).collect(),
        2 => crate::dec::gen_grammar(r),
        _ => {
            let mut s = crate::dec::gen_number(r);
            if r.bool() {
                // exponents beyond any integer type
                s.push_str(&format!("e{}{}", r.pick(&["", "-", "+"]), "9".repeat(r.range(1, 60) as usize)));
            }
            s
        }
    };
    Case::s(s)
}

pub fn ops(o: &mut Vec<Op>) {
    let mut op = |prop, name, n, gen, grid, check| {
        o.push(Op { prop, name, n, gen, grid, check })
    };
    op("F01", "pair_laws", 20_000_000, (|r| { let (x, y) = match r.below(3) { 0 => gen::pair_add(r), 1 => gen::pair_mul(r), _ => gen::pair_div(r) }; Case::f(&[x, y]) }) as fn(&mut Rng) -> Case, Some(grid2 as fn() -> Vec<Case>), law_pairs as fn(&Case) -> Res);
    op("F01", "unary_laws", 14_000_000, |r| { let b = if r.bool() { gen::int_operand(r) } else { gen::value(r) }; Case::f(&[b]) }, Some(grid1), law_unary);
    op("F01", "monotonic", 7_700_000, gen_mono, None, law_mono);
    op("F01", "rem_laws", 2_500_000, |r| { let t = gen::pair_rem(r); Case::f(&[t.0, t.1]) }, None, law_rem);
    op("F02", "trig_laws", 1_500_000, |r| { let b = match r.below(8) { 0..=3 => gen::trig_arg(r), 4 => super::transc::unit_arg(r).f[0], 5 => super::transc::atan_arg(r).f[0], _ => gen::make(r.bool(), (BIAS + r.range(-20, 3)) as u32, gen::frac(r)) }; Case::f(&[b]) }, None, law_trig);
    op("G01", "total", 24_000_000, gen_total, None, total);
    op("G01", "total_fn", 300_000, gen_total_fn, None, total_fn);
    op("G01", "total_fmt", 200_000, gen_total_fmt, None, total_fmt);
    op("G01", "parse_total", 1_100_000, gen_text, None, parse_total);
}
