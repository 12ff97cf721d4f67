//! D01..D07: transcendental functions and angle conversion.
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::{Op, Res};

/// The allowed error in ulp: correctly rounded but for near ties.
const T: f64 = 0.501;

/// tan is specified (by the crate's own tests) as the rounded quotient of the
/// rounded sine and cosine, which is within 2 ulp of the exact value.
const T_TAN: f64 = 2.01;

/// The crate's own tests pin a conversion factor 180/pi that is 2^-237.8 off,
/// which adds at most 0.58 ulp to the rounding error.
const T_DEG: f64 = 1.09;

/// `got` must be the correctly rounded result or, failing that, differ from
/// the exact value (recomputed to 700 bits by `exact`) by less than `tol` ulp.
/// NaNs, infinities and the sign must match in any case.
fn near(what: &str, got: B, want: B, tol: f64, exact: &dyn Fn() -> Mp) -> Result<(), String> {
    let (got, want) = (canon(got), canon(want));
    if got == want {
        return Ok(());
    }
    if !is_finite(want) || !is_finite(got) || is_zero(want) || is_neg(got) != is_neg(want) {
        return same(what, got, want);
    }
    let e = ulp_err(got, &exact());
    ensure(e < tol, || {
        format!(
            "{what}: got {}, correctly rounded {}: {e} ulp off the exact value (allowed: {tol})",
            hex(got),
            hex(want),
        )
    })
}

/// |got - x| in units of the last place of x.
fn ulp_err(got: B, x: &Mp) -> f64 {
    let g = Mp::from_bits(got);
    let mut d = Mp::new(800);
    d.sub(&g, x);
    if d.is_zero() {
        return 0.0;
    }
    let u = (x.exp() - P).max(-262378);
    let mut t = Mp::new(60);
    t.mul_2si(&d, -u);
    t.to_f64().abs()
}
fn ex1(f: fn(&mut Mp, &Mp) -> i32, x: B) -> Mp {
    let mut r = Mp::new(700);
    f(&mut r, &Mp::from_bits(x));
    r
}
fn near1(what: &str, got: B, f: fn(&mut Mp, &Mp) -> i32, x: B, tol: f64) -> Result<(), String> {
    near(what, got, un(f, x), tol, &|| ex1(f, x))
}

/// ln is NaN for everything but finite positive arguments (documented by the
/// crate's own tests: it does not follow f64 for 0 and infinity).
fn log_with(c: &Case, what: &str, g: f256, f: fn(&mut Mp, &Mp) -> i32, tol: f64) -> Res {
    let x = c.f[0];
    let w = if is_nan(x) || is_neg(x) || is_zero(x) || is_inf(x) {
        NAN
    } else {
        un(f, x)
    };
    near(what, nb(g), w, tol, &|| ex1(f, x))?;
    Ok(is_fin_nz(x) && !is_neg(x) && x != ONE)
}
fn ln(c: &Case) -> Res {
    log_with(c, "ln", v(c.f[0]).ln(), Mp::log, T)
}
fn log2(c: &Case) -> Res {
    log_with(c, "log2", v(c.f[0]).log2(), Mp::log2, T)
}
fn log10(c: &Case) -> Res {
    log_with(c, "log10", v(c.f[0]).log10(), Mp::log10, T)
}
pub fn log_arg(r: &mut Rng) -> Case {
    let b = match r.below(12) {
        0 => gen::value(r),
        1 => gen::make(false, gen::bexp(r), gen::frac(r)),
        2 | 3 => gen::make(false, (BIAS + r.range(-2, 1)) as u32, gen::frac(r)),
        4 => gen::nudge(r, ONE),
        5 => {
            // 1 +- 2^-k (1 + ...)
            let k = r.range(1, 236);
            let d = gen::make(r.bool(), (BIAS - k) as u32, gen::frac(r));
            bin(Mp::add, ONE, d)
        }
        6 => {
            // exact powers of two and ten, nudged
            let k = r.range(-300, 300);
            let b = if r.bool() {
                gen::make(false, (BIAS + k) as u32, (0, 0))
            } else {
                parse_dec(&format!("1e{k}"))
            };
            gen::nudge(r, b)
        }
        7 => {
            let k = if r.bool() { r.range(-78900, 78900) } else { r.range(0, 75) };
            parse_dec(&format!("1e{k}"))
        }
        8 => {
            let mut f = gen::frac(r);
            if f == (0, 0) {
                f = (0, 1);
            }
            gen::make(false, 0, f)
        }
        9 => abs(gen::small_int(r)),
        _ => gen::make(false, (BIAS + r.range(-40, 40)) as u32, gen::frac(r)),
    };
    Case::f(&[b])
}

/// Circular functions: arguments beyond 1 are reduced to a fixed-point number
/// with 492 fractional bits. Near a multiple of pi/2 its last bits carry weight
/// (there are some 30000 arguments where that exceeds 2^-13 ulp; the worst one
/// leaves 239 valid bits), which may add up to 2^-490 to the error of sine and
/// cosine.
fn near_trig(what: &str, got: B, f: fn(&mut Mp, &Mp) -> i32, x: B, tol: f64) -> Result<(), String> {
    let w = un(f, x);
    let mut tol = tol;
    if is_fin_nz(x) && lead_exp(x) >= 0 && is_fin_nz(w) {
        tol += 2f64.powi((lead_exp(w).abs() - 254) as i32);
    }
    near(what, got, w, tol, &|| ex1(f, x))
}
fn trig(x: B) -> bool {
    is_fin_nz(x)
}
fn sin(c: &Case) -> Res {
    near_trig("sin", nb(v(c.f[0]).sin()), Mp::sin, c.f[0], T)?;
    Ok(trig(c.f[0]))
}
fn cos(c: &Case) -> Res {
    near_trig("cos", nb(v(c.f[0]).cos()), Mp::cos, c.f[0], T)?;
    Ok(trig(c.f[0]))
}
fn sin_cos(c: &Case) -> Res {
    let (s, k) = v(c.f[0]).sin_cos();
    near_trig("sin_cos.0", nb(s), Mp::sin, c.f[0], T)?;
    near_trig("sin_cos.1", nb(k), Mp::cos, c.f[0], T)?;
    Ok(trig(c.f[0]))
}
fn tan(c: &Case) -> Res {
    near_trig("tan", nb(v(c.f[0]).tan()), Mp::tan, c.f[0], T_TAN)?;
    Ok(trig(c.f[0]))
}
/// grid1 and the arguments nearest to multiples of pi/2, both signs, with
/// their neighbours.
fn grid_trig() -> Vec<Case> {
    let mut g = grid1();
    for b in crate::worst::pio2() {
        for d in [0u128, 1, 2] {
            let x = (b.0, b.1.wrapping_add(d).wrapping_sub(1));
            g.push(Case::f(&[x]));
            g.push(Case::f(&[neg(x)]));
        }
    }
    g
}
fn trig_case(r: &mut Rng) -> Case {
    Case::f(&[gen::trig_arg(r)])
}

pub fn unit_arg(r: &mut Rng) -> Case {
    let b = match r.below(12) {
        0 => gen::value(r),
        1 | 2 => gen::make(r.bool(), (BIAS + r.range(-3, 0)) as u32, gen::frac(r)),
        3 => gen::make(r.bool(), (BIAS + r.range(-130, -1)) as u32, gen::frac(r)),
        4 => gen::make(r.bool(), (BIAS + r.range(-560, -100)) as u32, gen::frac(r)),
        5 => {
            let o = if r.bool() { ONE } else { neg(ONE) };
            gen::nudge(r, o)
        }
        6 | 7 => {
            let k = r.range(1, 236);
            let d = gen::make(true, (BIAS - k) as u32, gen::frac(r));
            let b = bin(Mp::add, ONE, d);
            if r.bool() {
                neg(b)
            } else {
                b
            }
        }
        8 => {
            // sines of nice angles
            let t = un(Mp::sin, gen::mult_pi(r));
            gen::nudge(r, t)
        }
        9 => {
            // around 1/2, 1/sqrt 2, sqrt 3 / 2
            let s = *r.pick(&["0.25", "0.5", "0.75"]);
            let t = un(Mp::sqrt, parse_dec(s));
            let t = gen::nudge(r, t);
            if r.bool() {
                neg(t)
            } else {
                t
            }
        }
        10 => gen::make(r.bool(), r.below(BIAS as u64) as u32, gen::frac(r)),
        _ => gen::make(r.bool(), (BIAS - 1) as u32, gen::frac(r)),
    };
    Case::f(&[b])
}
fn asin(c: &Case) -> Res {
    near1("asin", nb(v(c.f[0]).asin()), Mp::asin, c.f[0], T)?;
    Ok(is_fin_nz(c.f[0]) && abs(c.f[0]) <= ONE)
}
fn acos(c: &Case) -> Res {
    near1("acos", nb(v(c.f[0]).acos()), Mp::acos, c.f[0], T)?;
    Ok(is_fin_nz(c.f[0]) && abs(c.f[0]) <= ONE)
}
pub fn atan_arg(r: &mut Rng) -> Case {
    let b = match r.below(9) {
        0 => gen::value(r),
        1 => gen::make(r.bool(), gen::bexp(r), gen::frac(r)),
        2..=4 => gen::make(r.bool(), (BIAS + r.range(-4, 4)) as u32, gen::frac(r)),
        5 => gen::make(r.bool(), (BIAS + r.range(-560, -1)) as u32, gen::frac(r)),
        6 => gen::make(r.bool(), (BIAS + r.range(0, 560)) as u32, gen::frac(r)),
        7 => {
            let t = un(Mp::tan, gen::mult_pi(r));
            gen::nudge(r, t)
        }
        _ => {
            let o = if r.bool() { ONE } else { neg(ONE) };
            gen::nudge(r, o)
        }
    };
    Case::f(&[b])
}
fn atan(c: &Case) -> Res {
    near1("atan", nb(v(c.f[0]).atan()), Mp::atan, c.f[0], T)?;
    Ok(is_fin_nz(c.f[0]))
}
fn atan2_arg(r: &mut Rng) -> Case {
    let y = match r.below(6) {
        0 => gen::value(r),
        1 => gen::special(r),
        2 => gen::finite(r),
        _ => gen::make(r.bool(), (BIAS + r.range(-260, 260)) as u32, gen::frac(r)),
    };
    let x = match r.below(9) {
        0 => gen::value(r),
        1 => gen::special(r),
        2 if is_finite(y) => {
            let t = gen::nudge(r, y);
            if r.bool() {
                neg(t)
            } else {
                t
            }
        }
        3..=6 if is_fin_nz(y) => {
            let f = gen::make(r.bool(), 1, gen::frac(r));
            let d = match r.below(3) {
                0 => r.range(-3, 3),
                1 => r.range(-270, 270),
                _ => r.range(-600, 600),
            };
            gen::with_exp(f, lead_exp(y) + d)
        }
        _ => gen::finite(r),
    };
    Case::f(&[y, x])
}
fn atan2(c: &Case) -> Res {
    let (y, x) = (c.f[0], c.f[1]);
    if is_zero(y) && !is_nan(x) {
        // The sign of the result for y = ±0 and the result for x = y = 0 are
        // left open: the crate's documentation ("x = 0, y = 0: 0", "y >= 0:
        // arctan(y/x) + π") differs from IEEE here.
        let got = nb(v(y).atan2(&v(x)));
        let pi = bin(Mp::atan2, ZERO, neg(ONE));
        let m = abs(got);
        let ok = if is_zero(x) {
            m == ZERO || m == pi
        } else if is_neg(x) {
            m == pi
        } else {
            m == ZERO
        };
        return ensure(ok, || format!("atan2: got {} for y = ±0", hex(got))).map(|_| false);
    }
    near("atan2", nb(v(y).atan2(&v(x))), bin(Mp::atan2, y, x), T, &|| {
        let mut r = Mp::new(700);
        r.atan2(&Mp::from_bits(y), &Mp::from_bits(x));
        r
    })?;
    Ok(is_fin_nz(y) && is_fin_nz(x))
}

/// x * 180/pi or x * pi/180, correctly rounded via 1200 bits (no exact or
/// halfway cases exist: pi is transcendental).
fn angle(what: &str, got: B, x: B, to_deg: bool) -> Res {
    if !is_fin_nz(x) {
        same(what, got, x)?;
        return Ok(false);
    }
    let a = Mp::from_bits(x);
    let mut k = Mp::new(1200);
    let mut pi = Mp::new(1200);
    pi.const_pi();
    let mut c = Mp::new(64);
    c.set_si_2exp(180, 0);
    if to_deg {
        k.div(&c, &pi);
    } else {
        k.div(&pi, &c);
    }
    let mut p = Mp::new(1200);
    p.mul(&a, &k);
    let want = round_to_bits(&p);
    let tol = if to_deg { T_DEG } else { T };
    if to_deg && is_inf(got) && is_neg(got) == is_neg(want) && add_bits(abs(want), 1) == INF {
        // the factor's error may take the largest value across the limit
        return Ok(false);
    }
    near(what, got, want, tol, &|| {
        let mut q = Mp::new(1200);
        q.set(&p);
        q
    })?;
    Ok(true)
}
fn degrees(c: &Case) -> Res {
    angle("to_degrees", nb(v(c.f[0]).to_degrees()), c.f[0], true)
}
fn radians(c: &Case) -> Res {
    angle("to_radians", nb(v(c.f[0]).to_radians()), c.f[0], false)
}

pub fn ops(o: &mut Vec<Op>) {
    let mut op = |prop, name, n, gen, grid, check| {
        o.push(Op { prop, name, n, gen, grid: Some(grid), check })
    };
    op("D01", "ln", 970_000, log_arg, grid1 as fn() -> Vec<Case>, ln as fn(&Case) -> Res);
    op("D01", "log2", 860_000, log_arg, grid1, log2);
    op("D01", "log10", 830_000, log_arg, grid1, log10);
    op("D02", "sin", 390_000, trig_case, grid_trig, sin);
    op("D02", "cos", 450_000, trig_case, grid_trig, cos);
    op("D02", "sin_cos", 220_000, trig_case, grid_trig, sin_cos);
    op("D03", "tan", 980_000, trig_case, grid_trig, tan);
    op("D05", "asin", 4_700_000, unit_arg, grid1, asin);
    op("D05", "acos", 4_200_000, unit_arg, grid1, acos);
    op("D06", "atan", 8_500_000, atan_arg, grid1, atan);
    op("D06", "atan2", 14_000_000, atan2_arg, grid2, atan2);
    op("D07", "to_degrees", 67_000_000, |r| Case::f(&[gen::value(r)]), grid1, degrees);
    op("D07", "to_radians", 100_000_000, |r| Case::f(&[gen::value(r)]), grid1, radians);
}
