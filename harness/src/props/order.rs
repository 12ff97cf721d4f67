//! B01..B04: comparison, classification, rounding to integers.
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::{Op, Res};
use std::cmp::Ordering;
use std::num::FpCategory;

fn cmp_pair(r: &mut Rng) -> Case {
    let x = gen::pattern(r);
    let y = match r.below(6) {
        0 => gen::pattern(r),
        1 => x,
        2 => neg(x),
        3 => {
            if is_finite(x) {
                gen::nudge(r, x)
            } else {
                gen::special(r)
            }
        }
        4 => {
            // one bit apart
            let s = shl256((0, 1), r.below(256) as u32);
            (x.0 ^ s.0, x.1 ^ s.1)
        }
        _ => gen::value(r),
    };
    Case::f(&[x, y])
}

/// Numerical order, None if a NaN is involved.
fn order(x: B, y: B) -> Option<Ordering> {
    if is_nan(x) || is_nan(y) {
        return None;
    }
    Some(Mp::from_bits(x).cmp(&Mp::from_bits(y)).cmp(&0))
}

fn partial(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    let (a, b) = (v(x), v(y));
    let w = order(x, y);
    let g = a.partial_cmp(&b);
    if is_neg(x) && is_neg(y) && x != y && w.is_some() {
        // known finding: two negative values are compared the wrong way round
        let lt = w == Some(Ordering::Less);
        if g == w.map(Ordering::reverse)
            && a != b
            && !(a == b)
            && (a < b, a <= b, a > b, a >= b) == (!lt, !lt, lt, lt)
        {
            return Err("[negatives-reversed] order of two negative values".into());
        }
    }
    ensure(g == w, || format!("partial_cmp: got {g:?}, expected {w:?}"))?;
    let eq = w == Some(Ordering::Equal);
    ensure((a == b) == eq, || format!("==: expected {eq}"))?;
    ensure((a != b) == !eq, || format!("!=: expected {}", !eq))?;
    let lt = w == Some(Ordering::Less);
    let gt = w == Some(Ordering::Greater);
    ensure((a < b) == lt, || format!("<: expected {lt}"))?;
    ensure((a > b) == gt, || format!(">: expected {gt}"))?;
    ensure((a <= b) == (lt || eq), || format!("<=: expected {}", lt || eq))?;
    ensure((a >= b) == (gt || eq), || format!(">=: expected {}", gt || eq))?;
    Ok(w.is_some() && x != y)
}
fn minmax(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    let (mx, mn) = (nb(v(x).max(v(y))), nb(v(x).min(v(y))));
    if is_nan(x) && is_nan(y) {
        ensure(is_nan(mx) && is_nan(mn), || "max/min of NaNs".into())?;
    } else if is_nan(x) || is_nan(y) {
        let w = if is_nan(x) { y } else { x };
        same("max with NaN", mx, w)?;
        same("min with NaN", mn, w)?;
    } else if is_zero(x) && is_zero(y) {
        ensure(mx == x || mx == y, || format!("max of zeros: {}", hex(mx)))?;
        ensure(mn == x || mn == y, || format!("min of zeros: {}", hex(mn)))?;
    } else {
        let less = order(x, y) == Some(Ordering::Less);
        same("max", mx, if less { y } else { x })?;
        same("min", mn, if less { x } else { y })?;
    }
    Ok(x != y && is_finite(x) && is_finite(y))
}
fn clamp(c: &Case) -> Res {
    let (x, lo, hi) = (c.f[0], c.f[1], c.f[2]);
    let valid = matches!(order(lo, hi), Some(Ordering::Less | Ordering::Equal));
    if !valid {
        // documented panic
        let r = std::panic::catch_unwind(|| v(x).clamp(v(lo), v(hi)));
        ensure(r.is_err(), || {
            "clamp with min > max or a NaN bound returned".to_string()
        })?;
        return Ok(false);
    }
    let g = nb(v(x).clamp(v(lo), v(hi)));
    let w = match (order(x, lo), order(x, hi)) {
        (Some(Ordering::Less), _) => lo,
        (_, Some(Ordering::Greater)) => hi,
        _ => x,
    };
    same("clamp", g, w)?;
    Ok(!is_nan(x))
}
fn gen_clamp(r: &mut Rng) -> Case {
    let a = cmp_pair(r);
    let (mut lo, mut hi) = (a.f[0], a.f[1]);
    if r.chance(7, 8) && order(lo, hi) == Some(Ordering::Greater) {
        std::mem::swap(&mut lo, &mut hi);
    }
    let x = match r.below(4) {
        0 if is_finite(lo) => gen::nudge(r, lo),
        1 if is_finite(hi) => gen::nudge(r, hi),
        _ => gen::pattern(r),
    };
    Case::f(&[x, lo, hi])
}

fn total_key(b: B) -> B {
    if is_neg(b) {
        (!b.0, !b.1)
    } else {
        (b.0 | HI_SIGN, b.1)
    }
}
fn total(c: &Case) -> Res {
    let (x, y) = (c.f[0], c.f[1]);
    let w = total_key(x).cmp(&total_key(y));
    let g = v(x).total_cmp(&v(y));
    ensure(g == w, || format!("total_cmp: got {g:?}, expected {w:?}"))?;
    Ok(x != y)
}
fn total_sort(c: &Case) -> Res {
    let mut a: Vec<f256> = c.f.iter().map(|b| v(*b)).collect();
    a.sort_by(|p, q| p.total_cmp(q));
    let mut w = c.f.clone();
    w.sort_by_key(|b| total_key(*b));
    for (p, q) in a.iter().zip(&w) {
        ensure(p.to_bits() == *q, || {
            "sort by total_cmp is not in totalOrder order".to_string()
        })?;
    }
    Ok(c.f.len() > 2)
}

fn classify(c: &Case) -> Res {
    let b = c.f[0];
    let x = v(b);
    let (nan, inf, zero, sub) = (is_nan(b), is_inf(b), is_zero(b), is_sub(b));
    let norm = !nan && !inf && !zero && !sub;
    let t = |n: &str, g: bool, w: bool| {
        ensure(g == w, || format!("{n}: got {g}, expected {w}"))
    };
    t("is_nan", x.is_nan(), nan)?;
    t("is_infinite", x.is_infinite(), inf)?;
    t("is_finite", x.is_finite(), !nan && !inf)?;
    t("is_subnormal", x.is_subnormal(), sub)?;
    t("is_normal", x.is_normal(), norm)?;
    t("eq_zero", x.eq_zero(), zero)?;
    t("is_special", x.is_special(), zero || inf || nan)?;
    t("is_sign_negative", x.is_sign_negative(), is_neg(b))?;
    t("is_sign_positive", x.is_sign_positive(), !is_neg(b))?;
    let w = if nan {
        FpCategory::Nan
    } else if inf {
        FpCategory::Infinite
    } else if zero {
        FpCategory::Zero
    } else if sub {
        FpCategory::Subnormal
    } else {
        FpCategory::Normal
    };
    let g = x.classify();
    ensure(g == w, || format!("classify: got {g:?}, expected {w:?}"))?;
    Ok(is_fin_nz(b) || (nan && abs(b) != NAN))
}
fn signs(c: &Case) -> Res {
    let b = c.f[0];
    let x = v(b);
    let raw = |n: &str, g: f256, w: B| {
        let g = g.to_bits();
        ensure(g == w, || format!("{n}: got {}, expected {}", hex(g), hex(w)))
    };
    raw("abs", x.abs(), abs(b))?;
    raw("neg", -x, neg(b))?;
    raw("neg of ref", -&x, neg(b))?;
    Ok(is_fin_nz(b))
}
/// Whatever is not a number comes out as the one NaN, unless an operand was
/// another NaN pattern; functions that return an operand are not concerned.
fn one_nan(c: &Case) -> Res {
    let (x, y, z) = (v(c.f[0]), v(c.f[1]), v(c.f[2]));
    let other = c.f.iter().any(|b| is_nan(*b) && *b != NAN);
    let (p, q, t) = (c.f[0], c.f[1], c.f[2]);
    let n1 = is_nan(p);
    let n2 = n1 || is_nan(q);
    let n3 = n2 || is_nan(t);
    let inf = |b: B| !is_nan(b) && !is_finite(b);
    let zero = is_zero;
    // 0 * inf
    let prod = |a: B, b: B| zero(a) && inf(b) || inf(a) && zero(b);
    let opposite = is_neg(p) != is_neg(q);
    let both = inf(p) && inf(q);
    // outside of -1..=1
    let far = abs(p) > ONE;
    let log = n1 || is_neg(p) || zero(p) || inf(p);
    let mut hit = false;
    // whether the result has to be a NaN, None: no statement
    for (n, g, w) in [
        ("x+y", x + y, Some(n2 || both && opposite)),
        ("x-y", x - y, Some(n2 || both && !opposite)),
        ("x*y", x * y, Some(n2 || prod(p, q))),
        ("x/y", x / y, Some(n2 || both || zero(p) && zero(q))),
        if is_fin_nz(p) && is_fin_nz(q) {
            ("x%y", x, None)
        } else {
            ("x%y", x % y, Some(n2 || inf(p) || zero(q)))
        },
        (
            "mul_add",
            x.mul_add(y, z),
            Some(
                n3 || prod(p, q)
                    || (inf(p) || inf(q)) && inf(t) && opposite != is_neg(t),
            ),
        ),
        ("sum_of_squares", x.sum_of_squares(y), Some(n2)),
        ("square_add", x.square_add(y), Some(n2 || both && is_neg(q))),
        ("square", x.square(), Some(n1)),
        ("sqrt", x.sqrt(), Some(n1 || is_neg(p) && !zero(p))),
        ("recip", x.recip(), Some(n1)),
        ("ln", x.ln(), Some(log)),
        ("log2", x.log2(), Some(log)),
        ("log10", x.log10(), Some(log)),
        ("asin", x.asin(), Some(far)),
        ("acos", x.acos(), Some(far)),
        ("atan", x.atan(), Some(n1)),
        ("atan2", x.atan2(&y), Some(n2)),
        ("ulp", x.ulp(), Some(n1 || inf(p))),
        ("sin", if is_finite(p) { x } else { x.sin() }, Some(!is_finite(p))),
        ("cos", if is_finite(p) { x } else { x.cos() }, Some(!is_finite(p))),
        ("sin_cos.0", if is_finite(p) { x } else { x.sin_cos().0 }, Some(!is_finite(p))),
        ("sin_cos.1", if is_finite(p) { x } else { x.sin_cos().1 }, Some(!is_finite(p))),
        ("tan", if is_finite(p) { x } else { x.tan() }, Some(!is_finite(p))),
        ("trunc", x.trunc(), Some(n1)),
        ("floor", x.floor(), Some(n1)),
        ("ceil", x.ceil(), Some(n1)),
        ("round", x.round(), Some(n1)),
        ("round_tie_even", x.round_tie_even(), Some(n1)),
        ("fract", x.fract(), Some(n1 || inf(p))),
        ("to_degrees", x.to_degrees(), Some(n1)),
        ("to_radians", x.to_radians(), Some(n1)),
        ("max", x.max(y), None),
        ("min", x.min(y), None),
        ("mul2", x.mul2(), Some(n1)),
        ("div2", x.div2(), Some(n1)),
    ] {
        let b = g.to_bits();
        if let Some(w) = w {
            ensure(is_nan(b) == w, || {
                format!("{n} gives {}, {}", hex(b), if w { "not a NaN" } else { "a NaN" })
            })?;
        }
        if is_nan(b) && !other {
            hit = true;
            ensure(b == NAN, || format!("{n} gives the NaN {}", hex(b)))?;
        }
        if is_nan(b) {
            ensure(g != g && g.is_nan() && format!("{g}") == "NaN", || format!("{n}: NaN is not NaN"))?;
        }
    }
    Ok(hit)
}
fn gen_one_nan(r: &mut Rng) -> Case {
    let mut p = || match r.below(3) {
        0 => *r.pick(&[INF, neg(INF), ZERO, neg(ZERO), NAN, ONE, neg(ONE)]),
        _ => gen::value(r),
    };
    Case::f(&[p(), p(), p()])
}
fn grid_one_nan() -> Vec<Case> {
    let s = [INF, neg(INF), ZERO, neg(ZERO), NAN, ONE, neg(ONE), MAXV, neg(MAXV), MIN_SUB, neg(MIN_SUB), gen::make(false, BIAS as u32 + 1, (0, 0))];
    let mut v = vec![];
    for a in s {
        for b in s {
            for c in s {
                v.push(Case::f(&[a, b, c]));
            }
        }
    }
    v
}
fn ulp(c: &Case) -> Res {
    let b = c.f[0];
    let w = if !is_finite(b) {
        NAN
    } else {
        let e = if is_zero(b) { EMIN } else { lead_exp(b).max(EMIN) };
        let mut m = Mp::new(P);
        m.set_si_2exp(1, e - 236);
        finish(m, 0)
    };
    same("ulp", nb(v(b).ulp()), w)?;
    Ok(is_fin_nz(b))
}

fn rint(b: B, m: Rint) -> B {
    let a = Mp::from_bits(b);
    let mut r = Mp::new(P);
    let t = r.rint_mode(&a, m);
    finish(r, t)
}
macro_rules! rint_op {
    ($name:ident, $meth:ident, $mode:expr) => {
        fn $name(c: &Case) -> Res {
            let b = c.f[0];
            same(
                concat!("x.", stringify!($meth), "()"),
                nb(v(b).$meth()),
                rint(b, $mode),
            )?;
            Ok(is_fin_nz(b) && lead_exp(b) < 236)
        }
    };
}
rint_op!(trunc, trunc, Rint::Trunc);
rint_op!(ceil, ceil, Rint::Ceil);
rint_op!(floor, floor, Rint::Floor);
rint_op!(round, round, Rint::Away);
rint_op!(round_even, round_tie_even, Rint::Even);
fn fract(c: &Case) -> Res {
    let b = c.f[0];
    let t = rint(b, Rint::Trunc);
    let f = bin(Mp::sub, b, t);
    // the sign of a zero fraction is not promised
    let eqz = |g: B, w: B| is_zero(g) && is_zero(w);
    let g = nb(v(b).fract());
    if !eqz(g, f) {
        same("x.fract()", g, f)?;
    }
    let (i, g) = v(b).split();
    same("x.split().0", nb(i), t)?;
    if !eqz(nb(g), f) {
        same("x.split().1", nb(g), f)?;
    }
    Ok(is_fin_nz(b) && lead_exp(b) < 236)
}

fn one(r: &mut Rng) -> Case {
    Case::f(&[gen::pattern(r)])
}
fn io(r: &mut Rng) -> Case {
    Case::f(&[gen::int_operand(r)])
}
fn gen_sort(r: &mut Rng) -> Case {
    let mut f = vec![];
    for _ in 0..r.range(2, 9) {
        let c = cmp_pair(r);
        f.push(c.f[0]);
        f.push(c.f[1]);
    }
    Case::f(&f)
}

pub fn ops(o: &mut Vec<Op>) {
    let mut op = |prop, name, n, gen, grid, check| {
        o.push(Op { prop, name, n, gen, grid, check })
    };
    op("B01", "partial_cmp", 120_000_000, cmp_pair, Some(grid2 as fn() -> Vec<Case>), partial);
    op("B01", "min_max", 120_000_000, cmp_pair, Some(grid2), minmax);
    op("B01", "clamp", 58_000_000, gen_clamp, None, clamp);
    op("B02", "total_cmp", 200_000_000, cmp_pair, Some(grid2), total);
    op("B02", "total_sort", 55_000_000, gen_sort, None, total_sort);
    op("B03", "classify", 120_000_000, one, Some(grid1), classify);
    op("B03", "abs_neg", 130_000_000, one, Some(grid1), signs);
    op("B03", "ulp", 120_000_000, one, Some(grid1), ulp);
    op("B05", "one_nan", 1_000_000, gen_one_nan, Some(grid_one_nan), one_nan);
    op("B04", "trunc", 58_000_000, io, Some(grid1), trunc);
    op("B04", "ceil", 63_000_000, io, Some(grid1), ceil);
    op("B04", "floor", 63_000_000, io, Some(grid1), floor);
    op("B04", "round", 57_000_000, io, Some(grid1), round);
    op("B04", "round_tie_even", 49_000_000, io, Some(grid1), round_even);
    op("B04", "fract_split", 39_000_000, io, Some(grid1), fract);
}
