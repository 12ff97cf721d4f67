//! A01..A08: exactly rounded arithmetic.
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::{Op, Res};

fn c2(p: (B, B)) -> Case {
    Case::f(&[p.0, p.1])
}

fn add(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    let w = bin(Mp::add, x, y);
    same("x + y", nb(v(x) + v(y)), w)?;
    Ok(is_fin_nz(x) && is_fin_nz(y) && w != x && w != y)
}
fn sub(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    let w = bin(Mp::sub, x, y);
    same("x - y", nb(v(x) - v(y)), w)?;
    Ok(is_fin_nz(x) && is_fin_nz(y) && w != x && abs(w) != abs(y))
}
fn mul(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    same("x * y", nb(v(x) * v(y)), bin(Mp::mul, x, y))?;
    Ok(is_fin_nz(x) && is_fin_nz(y))
}
fn div(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    same("x / y", nb(v(x) / v(y)), bin(Mp::div, x, y))?;
    Ok(is_fin_nz(x) && is_fin_nz(y))
}
fn recip(c: &Case) -> Res {
    let x = c.f[0];
    same("recip(x)", nb(v(x).recip()), bin(Mp::div, ONE, x))?;
    Ok(is_fin_nz(x))
}
fn rem(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    same("x % y", nb(v(x) % v(y)), bin(Mp::fmod, x, y))?;
    Ok(is_fin_nz(x) && is_fin_nz(y) && abs(x) >= abs(y))
}
fn mul_add(c: &Case) -> Res {
    let (x, y, z) = (c.f[0], c.f[1], c.f[2]);
    same("x.mul_add(y, z)", nb(v(x).mul_add(v(y), v(z))), fma(x, y, z))?;
    Ok(c.f.iter().all(|b| is_fin_nz(*b)))
}
fn square(c: &Case) -> Res {
    let x = c.f[0];
    same("x.square()", nb(v(x).square()), bin(Mp::mul, x, x))?;
    Ok(is_fin_nz(x))
}
fn square_add(c: &Case) -> Res {
    let (x, z) = (c.f[0], c.f[1]);
    same("x.square_add(z)", nb(v(x).square_add(v(z))), fma(x, x, z))?;
    Ok(is_fin_nz(x) && is_fin_nz(z))
}
fn sos(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    same(
        "x.sum_of_squares(y)",
        nb(v(x).sum_of_squares(v(y))),
        fmma(x, x, y, y),
    )?;
    Ok(is_fin_nz(x) && is_fin_nz(y))
}
fn sqrt(c: &Case) -> Res {
    let x = c.f[0];
    same("sqrt(x)", nb(v(x).sqrt()), un(Mp::sqrt, x))?;
    Ok(is_fin_nz(x) && !is_neg(x))
}
fn scale(x: B, n: i64) -> B {
    let a = Mp::from_bits(x);
    let mut r = Mp::new(P);
    let t = r.mul_2si(&a, n);
    finish(r, t)
}
fn pow2_n(c: &Case) -> u32 {
    c.i[0].clamp(0, u32::MAX as i128) as u32
}
fn mul_pow2(c: &Case) -> Res {
    let (x, n) = (c.f[0], pow2_n(c));
    same("x.mul_pow2(n)", nb(v(x).mul_pow2(n)), scale(x, n as i64))?;
    Ok(is_fin_nz(x) && n > 0)
}
fn div_pow2(c: &Case) -> Res {
    let (x, n) = (c.f[0], pow2_n(c));
    same("x.div_pow2(n)", nb(v(x).div_pow2(n)), scale(x, -(n as i64)))?;
    Ok(is_fin_nz(x) && n > 0)
}
fn two(c: &Case) -> Res {
    let x = c.f[0];
    same("x.mul2()", nb(v(x).mul2()), scale(x, 1))?;
    same("x.div2()", nb(v(x).div2()), scale(x, -1))?;
    Ok(is_fin_nz(x))
}
fn gen_pow2(r: &mut Rng, up: bool) -> Case {
    let x = if r.chance(1, 3) {
        let e = if up || r.bool() { r.below(260) } else { r.below(524286) } as u32;
        gen::make(r.bool(), e, gen::frac(r))
    } else {
        gen::value(r)
    };
    let e = if is_fin_nz(x) { lead_exp(x) } else { 0 };
    let n: i64 = match r.below(8) {
        0 => r.range(0, 3),
        1 => r.range(0, 600),
        2 => r.range(0, u32::MAX as i64),
        3 => *r.pick(&[u32::MAX as i64, u32::MAX as i64 - 1, i32::MAX as i64, 1 << 31, 1 << 19, 1 << 18, 524287, 524286, 0]),
        4 => {
            if up {
                EMAX - e + r.range(-3, 3)
            } else {
                e - EMIN + r.range(-3, 3)
            }
        }
        5 => {
            if up {
                EMIN - e + r.range(-3, 3)
            } else {
                e - ETINY + r.range(-3, 3)
            }
        }
        6 => {
            if up {
                r.range(0, 525000)
            } else {
                e - EMIN + r.range(0, 240)
            }
        }
        _ => r.range(0, 525000),
    };
    Case::fi(&[x], &[n.clamp(0, u32::MAX as i64) as i128])
}
fn grid_pow2() -> Vec<Case> {
    let mut v = vec![];
    for x in edge_values() {
        for n in [
            0i128, 1, 2, 3, 127, 128, 235, 236, 237, 238, 239, 262141, 262142,
            262143, 262378, 262379, 524284, 524285, 524286, 524287, 524521,
            524522, 524523, 1 << 20, i32::MAX as i128, 1 << 31,
            u32::MAX as i128,
        ] {
            v.push(Case::fi(&[x], &[n]));
        }
        if is_fin_nz(x) {
            let e = lead_exp(x);
            for d in -2..=2 {
                for n in [EMAX - e + d, e - EMIN + d, e - ETINY + d, EMIN - e + d]
                {
                    if n >= 0 {
                        v.push(Case::fi(&[x], &[n as i128]));
                    }
                }
            }
        }
    }
    v
}

pub fn ops(o: &mut Vec<Op>) {
    let mut op = |prop, name, n, gen, grid, check| {
        o.push(Op { prop, name, n, gen, grid: Some(grid), check })
    };
    op("A01", "add", 110_000_000, |r| c2(gen::pair_add(r)), grid2, add);
    op("A01", "sub", 110_000_000, |r| c2(gen::pair_add(r)), grid2, sub);
    op("A02", "mul", 220_000_000, |r| c2(gen::pair_mul(r)), grid2, mul);
    op("A03", "div", 76_000_000, |r| c2(gen::pair_div(r)), grid2, div);
    op("A03", "recip", 82_000_000, |r| Case::f(&[gen::pair_div(r).1]), grid1, recip);
    op("A04", "rem", 33_000_000, |r| c2(gen::pair_rem(r)), grid2, rem);
    op("A05", "mul_add", 140_000_000, |r| { let t = gen::triple_fma(r); Case::f(&[t.0, t.1, t.2]) }, grid3, mul_add);
    op("A06", "square", 80_000_000, |r| Case::f(&[gen::square_operand(r)]), grid1, square);
    op("A06", "square_add", 60_000_000, |r| c2(gen::pair_square_add(r)), grid2, square_add);
    op("A06", "sum_of_squares", 62_000_000, |r| c2(gen::pair_sos(r)), grid2, sos);
    op("A07", "sqrt", 66_000_000, |r| Case::f(&[gen::sqrt_operand(r)]), grid1, sqrt);
    op("A08", "mul_pow2", 120_000_000, |r| gen_pow2(r, true), grid_pow2, mul_pow2);
    op("A08", "div_pow2", 110_000_000, |r| gen_pow2(r, false), grid_pow2, div_pow2);
    op("A08", "mul2_div2", 100_000_000, |r| Case::f(&[gen::value(r)]), grid1, two);
}
