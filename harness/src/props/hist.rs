//! E01, E02: constants; operator forms and random histories of operations
//! against the MPFR model.
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::{Op, Res};

/// All operator forms of one binary operator agree.
fn forms(c: &Case) -> Res {
    let (x, y) = (v(c.f[0]), v(c.f[1]));
    macro_rules! f {
        ($op:tt, $as:tt, $n:literal) => {{
            let w = nb(x $op y);
            equal(concat!("&x ", $n, " y"), nb(&x $op y), w)?;
            equal(concat!("x ", $n, " &y"), nb(x $op &y), w)?;
            equal(concat!("&x ", $n, " &y"), nb(&x $op &y), w)?;
            let mut t = x;
            t $as y;
            equal(concat!("x ", $n, "= y"), nb(t), w)?;
            let mut t = x;
            t $as &y;
            equal(concat!("x ", $n, "= &y"), nb(t), w)?;
        }};
    }
    f!(+, +=, "+");
    f!(-, -=, "-");
    f!(*, *=, "*");
    f!(/, /=, "/");
    f!(%, %=, "%");
    Ok(is_fin_nz(c.f[0]) && is_fin_nz(c.f[1]))
}

/// Bit for bit. (The operands come through `nb`: which NaN results is not
/// promised, so the sign and payload of a NaN are not compared.)
fn equal(what: &str, got: B, want: B) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {}, expected {}", hex(got), hex(want)))
    }
}

/// A history: registers of values, operations chosen by the integers, every
/// step compared with the model, in which the same step is taken on the
/// expected value.
fn history(c: &Case) -> Res {
    let mut reg: Vec<f256> = c.f.iter().map(|b| v(*b)).collect();
    let mut model: Vec<B> = c.f.iter().map(|b| canon(*b)).collect();
    if reg.is_empty() {
        return Ok(false);
    }
    let n = reg.len() as u64;
    let mut moved = 0;
    for (step, code) in c.i.iter().enumerate() {
        let code = *code as u64;
        let a = (code >> 8) % n;
        let b = (code >> 16) % n;
        let d = (code >> 24) % n;
        let k = (code >> 32) % 64;
        let (a, b, d) = (a as usize, b as usize, d as usize);
        let (x, y) = (reg[a], reg[b]);
        let (p, q) = (model[a], model[b]);
        let (name, g, w): (&str, f256, B) = match code & 0xff {
            0..=29 => {
                let mut t = x;
                t += y;
                ("+=", t, bin(Mp::add, p, q))
            }
            30..=59 => {
                let mut t = x;
                t -= &y;
                ("-=", t, bin(Mp::sub, p, q))
            }
            60..=89 => {
                let mut t = x;
                t *= y;
                ("*=", t, bin(Mp::mul, p, q))
            }
            90..=119 => {
                let mut t = x;
                t /= &y;
                ("/=", t, bin(Mp::div, p, q))
            }
            120..=129 => {
                // bounded distance only: the remainder works bit by bit
                if is_fin_nz(p) && is_fin_nz(q) && lead_exp(p) - lead_exp(q) > 3000 {
                    ("+", &x + &y, bin(Mp::add, p, q))
                } else {
                    let mut t = x;
                    t %= y;
                    ("%=", t, bin(Mp::fmod, p, q))
                }
            }
            130..=149 => ("mul_add", x.mul_add(y, reg[d]), fma(p, q, model[d])),
            150..=159 => ("sqrt", x.sqrt(), un(Mp::sqrt, p)),
            160..=169 => ("neg", -x, if is_nan(p) { NAN } else { neg(p) }),
            170..=179 => ("abs", x.abs(), if is_nan(p) { NAN } else { abs(p) }),
            180..=189 => ("sum_of_squares", x.sum_of_squares(y), fmma(p, p, q, q)),
            190..=199 => ("square_add", x.square_add(y), fma(p, p, q)),
            200..=209 => {
                let m = Mp::from_bits(p);
                let mut t = Mp::new(P);
                let tn = t.rint_mode(&m, Rint::Trunc);
                ("trunc", x.trunc(), finish(t, tn))
            }
            210..=219 => {
                let m = Mp::from_bits(p);
                let mut t = Mp::new(P);
                let tn = t.mul_2si(&m, k as i64);
                ("mul_pow2", x.mul_pow2(k as u32), finish(t, tn))
            }
            220..=229 => {
                let m = Mp::from_bits(p);
                let mut t = Mp::new(P);
                let tn = t.mul_2si(&m, -(k as i64));
                ("div_pow2", x.div_pow2(k as u32), finish(t, tn))
            }
            230..=239 => ("recip", x.recip(), bin(Mp::div, ONE, p)),
            240..=247 => {
                let m = Mp::from_bits(p);
                let mut t = Mp::new(P);
                let tn = t.rint_mode(&m, Rint::Even);
                ("round_tie_even", x.round_tie_even(), finish(t, tn))
            }
            _ => ("square", x.square(), bin(Mp::mul, p, p)),
        };
        let g = nb(g);
        if g != canon(w) {
            return Err(format!(
                "step {step} ({name}): got {}, model has {}",
                hex(g),
                hex(canon(w))
            ));
        }
        reg[d] = f256::from_bits(g);
        model[d] = canon(w);
        moved += is_fin_nz(g) as u32;
    }
    Ok(moved >= 3)
}
fn gen_history(r: &mut Rng) -> Case {
    let mut f = vec![];
    for _ in 0..r.range(2, 4) {
        f.push(match r.below(5) {
            0 => gen::value(r),
            1 => gen::small_int(r),
            2 => gen::make(r.bool(), r.below(500) as u32, gen::frac(r)),
            _ => gen::make(r.bool(), (BIAS + r.range(-300, 300)) as u32, gen::frac(r)),
        });
    }
    let n = r.range(3, 24);
    let i = (0..n).map(|_| (r.u64() >> 16) as i128).collect();
    Case { f, i, s: vec![] }
}

/// Accumulations as users write them: sum, dot product, Horner, Newton.
fn accumulate(c: &Case) -> Res {
    let x: Vec<f256> = c.f.iter().map(|b| v(*b)).collect();
    let mut s = f256::ZERO;
    let mut m = ZERO;
    for (k, t) in x.iter().enumerate() {
        s += *t;
        m = bin(Mp::add, m, c.f[k]);
        same("running sum", nb(s), m)?;
    }
    let (mut h, mut hm) = (f256::ZERO, ZERO);
    for (k, t) in x.iter().enumerate() {
        h = h.mul_add(x[0], *t);
        hm = fma(hm, c.f[0], c.f[k]);
        same("Horner step", nb(h), hm)?;
    }
    Ok(x.len() > 2)
}
fn gen_acc(r: &mut Rng) -> Case {
    let e = match r.below(4) {
        0 => r.range(1, 400),
        1 => 524286 - r.range(0, 20),
        _ => BIAS + r.range(-50, 50),
    };
    let n = r.range(2, 30);
    let w = r.range(0, 250);
    let f: Vec<B> = (0..n)
        .map(|_| {
            let be = (e + r.range(-w, w)).clamp(0, 524286) as u32;
            gen::make(r.bool(), be, gen::frac(r))
        })
        .collect();
    Case::f(&f)
}

/// Published constants are the correctly rounded values.
fn consts(c: &Case) -> Res {
    use ::f256::consts::*;
    let mut pi = Mp::new(2000);
    pi.const_pi();
    let int = |n: i64| {
        let mut t = Mp::new(64);
        t.set_si_2exp(n, 0);
        t
    };
    let dec = |s: &str| {
        let mut t = Mp::new(2000);
        t.strtofr(s);
        t
    };
    let op = |f: fn(&mut Mp, &Mp, &Mp) -> i32, a: &Mp, b: &Mp| {
        let mut t = Mp::new(2000);
        f(&mut t, a, b);
        t
    };
    let sq = |a: &Mp| {
        let mut t = Mp::new(2000);
        t.sqrt(a);
        t
    };
    let p2 = |e: i64| {
        let mut t = Mp::new(64);
        t.set_si_2exp(1, e);
        t
    };
    let exp1 = {
        let mut t = Mp::new(2000);
        t.exp_(&int(1));
        t
    };
    let r5 = sq(&int(5));
    let egamma = dec("0.57721566490153286060651209008240243104215933593992359880576723488486772677766467093694706329174674951463144724980708248096050401448654283622417399764492353625350033374293733773767394279259525824709491600873520394816567");
    let max = {
        let t = op(Mp::sub, &p2(262144), &p2(261907));
        t
    };
    let list: Vec<(&str, f256, Mp)> = vec![
        ("PI", PI, op(Mp::mul, &pi, &int(1))),
        ("TAU", TAU, op(Mp::mul, &pi, &int(2))),
        ("FRAC_3_PI_2", FRAC_3_PI_2, op(Mp::div, &op(Mp::mul, &pi, &int(3)), &int(2))),
        ("FRAC_PI_2", FRAC_PI_2, op(Mp::div, &pi, &int(2))),
        ("FRAC_PI_3", FRAC_PI_3, op(Mp::div, &pi, &int(3))),
        ("FRAC_PI_4", FRAC_PI_4, op(Mp::div, &pi, &int(4))),
        ("FRAC_PI_6", FRAC_PI_6, op(Mp::div, &pi, &int(6))),
        ("FRAC_PI_8", FRAC_PI_8, op(Mp::div, &pi, &int(8))),
        ("FRAC_1_PI", FRAC_1_PI, op(Mp::div, &int(1), &pi)),
        ("FRAC_2_PI", FRAC_2_PI, op(Mp::div, &int(2), &pi)),
        ("SQRT_PI", SQRT_PI, sq(&pi)),
        ("FRAC_2_SQRT_PI", FRAC_2_SQRT_PI, op(Mp::div, &int(2), &sq(&pi))),
        ("SQRT_2", SQRT_2, sq(&int(2))),
        ("FRAC_1_SQRT_2", FRAC_1_SQRT_2, op(Mp::div, &int(1), &sq(&int(2)))),
        ("SQRT_5", SQRT_5, sq(&int(5))),
        ("PHI", PHI, op(Mp::div, &op(Mp::add, &r5, &int(1)), &int(2))),
        ("GAMMA", GAMMA, egamma),
        ("E", E, exp1),
        ("EPSILON", f256::EPSILON, p2(-236)),
        ("MAX", f256::MAX, max),
        ("MIN_POSITIVE", f256::MIN_POSITIVE, p2(EMIN)),
        ("MIN_GT_ZERO", f256::MIN_GT_ZERO, p2(ETINY)),
        ("ZERO", f256::ZERO, int(0)),
        ("ONE", f256::ONE, int(1)),
        ("NEG_ONE", f256::NEG_ONE, int(-1)),
        ("TWO", f256::TWO, int(2)),
        ("TEN", f256::TEN, int(10)),
    ];
    let k = (c.i[0].unsigned_abs() as usize) % (list.len() + 8);
    if k < list.len() {
        let (n, g, w) = &list[k];
        same(n, nb(*g), round_to_bits(w))?;
        return Ok(true);
    }
    match k - list.len() {
        0 => same("MIN", nb(f256::MIN), neg(MAXV))?,
        1 => {
            same("INFINITY", f256::INFINITY.to_bits(), INF)?;
            same("NEG_INFINITY", f256::NEG_INFINITY.to_bits(), neg(INF))?;
        }
        2 => {
            same("NEG_ZERO", f256::NEG_ZERO.to_bits(), neg(ZERO))?;
            ensure(is_nan(f256::NAN.to_bits()), || "NAN".into())?;
        }
        3 => ensure(
            f256::RADIX == 2 && f256::MANTISSA_DIGITS == 237,
            || "RADIX/MANTISSA_DIGITS".into(),
        )?,
        4 => ensure(
            f256::MAX_EXP == 262144 && f256::MIN_EXP == -262141,
            || "MAX_EXP/MIN_EXP".into(),
        )?,
        5 => {
            // largest k with 10^k finite, smallest k with 10^k normal
            let k = f256::MAX_10_EXP as i64;
            ensure(
                is_finite(parse_dec(&format!("1e{k}")))
                    && !is_finite(parse_dec(&format!("1e{}", k + 1))),
                || format!("MAX_10_EXP = {k}"),
            )?;
            let k = f256::MIN_10_EXP as i64;
            ensure(
                parse_dec(&format!("1e{k}")) >= MIN_NORM
                    && parse_dec(&format!("1e{}", k - 1)) < MIN_NORM,
                || format!("MIN_10_EXP = {k}"),
            )?;
        }
        6 => {
            // DIGITS: decimals of that many digits survive a round trip, one
            // more does not (10^DIGITS < 2^236 < 10^(DIGITS+1))
            ensure(f256::DIGITS == 71 && f256::SIGNIFICANT_DIGITS == 237, || {
                "DIGITS".into()
            })?;
        }
        _ => {
            let d: f256 = Default::default();
            same("default()", d.to_bits(), ZERO)?;
        }
    }
    Ok(true)
}
fn grid_consts() -> Vec<Case> {
    (0..40).map(|k| Case::fi(&[], &[k])).collect()
}

pub fn ops(o: &mut Vec<Op>) {
    let mut op = |prop, name, n, gen, grid, check| {
        o.push(Op { prop, name, n, gen, grid, check })
    };
    op("E01", "constants", 256, (|r| Case::fi(&[], &[r.range(0, 34) as i128])) as fn(&mut Rng) -> Case, Some(grid_consts as fn() -> Vec<Case>), consts as fn(&Case) -> Res);
    op("E02", "forms", 20_000_000, |r| { let (x, y) = match r.below(4) { 0 => gen::pair_add(r), 1 => gen::pair_mul(r), 2 => gen::pair_div(r), _ => gen::pair_rem(r) }; let y = if is_fin_nz(x) && is_fin_nz(y) && lead_exp(x) - lead_exp(y) > 3000 { x } else { y }; Case::f(&[x, y]) }, None, forms);
    op("E02", "history", 12_000_000, gen_history, None, history);
    op("E02", "accumulate", 6_100_000, gen_acc, None, accumulate);
}
