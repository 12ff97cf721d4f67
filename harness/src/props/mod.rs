//! The executable properties.
use crate::case::Case;
use crate::mp::*;
use crate::Op;
use f256::f256;

mod arith;
mod conv;
mod hist;
mod laws;
mod order;
mod text;
mod transc;

pub fn v(b: B) -> f256 {
    f256::from_bits(b)
}
/// Result bits, all NaNs alike.
pub fn nb(x: f256) -> B {
    let b = x.to_bits();
    if is_nan(b) {
        NAN
    } else {
        b
    }
}
pub fn canon(b: B) -> B {
    if is_nan(b) {
        NAN
    } else {
        b
    }
}
pub fn hex(b: B) -> String {
    format!("{:032x}_{:032x}", b.0, b.1)
}
pub fn same(what: &str, got: B, want: B) -> Result<(), String> {
    let (got, want) = (canon(got), canon(want));
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {}, expected {}", hex(got), hex(want)))
    }
}
/// Numerical order of the values (as the oracle sees them: the crate's own
/// comparison is the subject of B01), None if one is a NaN.
pub fn num(x: f256, y: f256) -> Option<std::cmp::Ordering> {
    let (x, y) = (nb(x), nb(y));
    if is_nan(x) || is_nan(y) {
        return None;
    }
    let key = |b: B| {
        if is_zero(b) {
            (1u128 << 127, 0)
        } else if is_neg(b) {
            (!b.0, !b.1)
        } else {
            (b.0 | 1 << 127, b.1)
        }
    };
    Some(key(x).cmp(&key(y)))
}
pub fn num_le(x: f256, y: f256) -> bool {
    num(x, y).is_some_and(|o| o.is_le())
}
pub fn num_lt(x: f256, y: f256) -> bool {
    num(x, y).is_some_and(|o| o.is_lt())
}

pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

/// Distance in representable values (saturating), same-sign or across zero.
pub fn ulp_dist(a: B, b: B) -> u64 {
    if is_nan(a) || is_nan(b) {
        return if is_nan(a) && is_nan(b) { 0 } else { u64::MAX };
    }
    let (x, y) = (abs(a), abs(b));
    let d = if is_neg(a) == is_neg(b) {
        let (h, l) = if x >= y { (x, y) } else { (y, x) };
        let (lo, c) = h.1.overflowing_sub(l.1);
        (h.0 - l.0 - c as u128, lo)
    } else {
        let (lo, c) = x.1.overflowing_add(y.1);
        (x.0 + y.0 + c as u128, lo)
    };
    if d.0 != 0 || d.1 > u64::MAX as u128 {
        u64::MAX
    } else {
        d.1 as u64
    }
}

/// Bit patterns at which behaviour is likely to change.
pub fn edge_values() -> Vec<B> {
    let mut v: Vec<B> = vec![];
    let ones: B = (HI_FRAC_MASK, u128::MAX);
    let fr: [B; 9] = [
        (0, 0),
        (0, 1),
        (0, 1 << 127),
        (0, u128::MAX),
        (1, 0),
        (1 << (HI_FRAC - 1), 0),
        (1 << (HI_FRAC - 1), 1),
        ((1 << (HI_FRAC - 1)) - 1, u128::MAX),
        ones,
    ];
    let ex: [u32; 22] = [
        0, 1, 2, 236, 237, 238, 262143 - 238, 262143 - 237, 262143 - 236,
        262141, 262142, 262143, 262144, 262145, 262143 + 127, 262143 + 128,
        262143 + 235, 262143 + 236, 262143 + 237, 524285, 524286, 131072,
    ];
    for e in ex {
        for f in fr {
            for s in [false, true] {
                v.push(crate::gen::make(s, e, f));
            }
        }
    }
    for b in specials() {
        v.push(b);
    }
    v.sort();
    v.dedup();
    v
}
pub fn specials() -> Vec<B> {
    let mut v = vec![];
    for b in [
        ZERO,
        INF,
        NAN,
        (INF.0, 1),
        (INF.0 | 1, 0),
        (INF.0 | HI_FRAC_MASK, u128::MAX),
        (INF.0 | (1 << 107), 1),
        (INF.0, 1 << 127),
    ] {
        v.push(b);
        v.push(neg(b));
    }
    v
}
/// A smaller set for pairs and triples.
pub fn core_values() -> Vec<B> {
    let mut v = vec![];
    let ones: B = (HI_FRAC_MASK, u128::MAX);
    for (e, f) in [
        (0u32, (0u128, 1u128)),
        (0, (0, 2)),
        (0, (0, 3)),
        (0, (1 << 107, 0)),
        (0, ones),
        (1, (0, 0)),
        (1, (0, 1)),
        (1, ones),
        (2, (0, 0)),
        (237, (0, 0)),
        (262143 - 237, (0, 0)),
        (262143 - 237, (0, 1)),
        (262143 - 236, (0, 0)),
        (262142, (0, 0)),
        (262142, (0, 1)),
        (262142, ones),
        (262143, (0, 0)),
        (262143, (0, 1)),
        (262143, (1 << 107, 0)),
        (262143, ones),
        (262144, (0, 0)),
        (262144, (1 << 107, 0)),
        (262143 + 236, (0, 1)),
        (262143 + 237, (0, 1)),
        (524286, (0, 0)),
        (524286, ones),
        (524285, ones),
        (524286 - 237, (0, 0)),
    ] {
        v.push(crate::gen::make(false, e, f));
        v.push(crate::gen::make(true, e, f));
    }
    v.extend([ZERO, neg(ZERO), INF, neg(INF), NAN]);
    v
}
pub fn grid1() -> Vec<Case> {
    edge_values().into_iter().map(|b| Case::f(&[b])).collect()
}
pub fn grid2() -> Vec<Case> {
    let e = edge_values();
    let c = core_values();
    let mut v = vec![];
    for a in &e {
        for b in &c {
            v.push(Case::f(&[*a, *b]));
            v.push(Case::f(&[*b, *a]));
        }
    }
    v
}
pub fn grid3() -> Vec<Case> {
    let c = core_values();
    let mut v = vec![];
    for a in &c {
        for b in &c {
            for d in &c {
                v.push(Case::f(&[*a, *b, *d]));
            }
        }
    }
    v
}

pub fn all() -> Vec<Op> {
    let mut o = vec![];
    arith::ops(&mut o);
    order::ops(&mut o);
    conv::ops(&mut o);
    text::ops(&mut o);
    transc::ops(&mut o);
    hist::ops(&mut o);
    laws::ops(&mut o);
    o
}

/// How cases are made and what counts as non-trivial, for the evidence.
pub fn rule(p: &str) -> &'static str {
    match p {
        "A01" => "operand pairs built from structured significands and exponent distances around 0, 1, the precision and half-ulp positions, near-cancelling pairs, plus an enumerated grid of edge values; non-trivial: both operands finite and non-zero and the result differs from both",
        "A02" | "A03" => "operand pairs steered so that the result is exact, a near tie, full length, subnormal or near overflow, plus an enumerated grid; non-trivial: both operands finite and non-zero",
        "A04" => "operand pairs with limited and unlimited exponent distance, exact multiples and their neighbours, plus a grid; non-trivial: finite operands, |x| >= |y| > 0",
        "A05" | "A06" => "products of steered length and exponent with an addend placed relative to the product's bits (far below, at the rounding position, cancelling), plus a grid; non-trivial: all operands finite and non-zero",
        "A07" => "perfect squares and their neighbours, radicands whose root is close to a halfway point, subnormals, structured random values, plus a grid; non-trivial: operand finite and positive",
        "A08" => "values in every exponent range with shift counts around the distances to the subnormal and overflow limits, plus a grid; non-trivial: finite non-zero operand and a shift of at least 1",
        _ => "structured random values (boundary exponents, sparse, dense, run and word-boundary significands, near-equal pairs) plus enumerated edge grids; non-trivial: the operands are finite and non-zero (texts: a valid number or a near miss of the grammar) and the oracle had to decide the answer",
    }
}
