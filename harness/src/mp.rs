//! Oracle arithmetic: GNU MPFR / GMP, bound by hand (the shared libraries are
//! installed, the development files of MPFR are not).
//!
//! `Mp` is a multi-precision float.  `narrow()` sets MPFR's exponent range to
//! that of binary256, so that an operation at 237 bits followed by
//! `mpfr_subnormalize` yields exactly the IEEE 754 result; `wide()` restores
//! the full range for intermediate results.
#![allow(dead_code)]

use std::ffi::{c_char, c_int, c_long, c_ulong, c_void, CStr, CString};

pub type B = (u128, u128);

pub const P: i64 = 237;
pub const FRAC_BITS: u32 = 236;
pub const BIAS: i64 = 262143;
pub const EMAX: i64 = 262143;
pub const EMIN: i64 = -262142;
/// exponent of the smallest subnormal
pub const ETINY: i64 = EMIN - 236;
pub const EXP_ALL: u32 = 0x7ffff;
pub const HI_SIGN: u128 = 1 << 127;
pub const HI_FRAC: u32 = 108;
pub const HI_FRAC_MASK: u128 = (1 << HI_FRAC) - 1;
pub const NAN: B = (((EXP_ALL as u128) << HI_FRAC) | (1 << (HI_FRAC - 1)), 0);
pub const INF: B = ((EXP_ALL as u128) << HI_FRAC, 0);
pub const MAXV: B = (
    ((EXP_ALL as u128 - 1) << HI_FRAC) | HI_FRAC_MASK,
    u128::MAX,
);
pub const ONE: B = ((BIAS as u128) << HI_FRAC, 0);
pub const ZERO: B = (0, 0);
pub const MIN_SUB: B = (0, 1);
pub const MIN_NORM: B = (1 << HI_FRAC, 0);

#[repr(C)]
pub struct MpfrT {
    prec: c_long,
    sign: c_int,
    exp: c_long,
    d: *mut u64,
}
#[repr(C)]
pub struct MpzT {
    alloc: c_int,
    size: c_int,
    d: *mut u64,
}

pub const RNDN: c_int = 0;
pub const RNDZ: c_int = 1;
pub const RNDU: c_int = 2;
pub const RNDD: c_int = 3;

type FP = *mut MpfrT;
type CP = *const MpfrT;
extern "C" {
    fn mpfr_init2(x: FP, p: c_long);
    fn mpfr_clear(x: FP);
    fn mpfr_set_emin(e: c_long) -> c_int;
    fn mpfr_set_emax(e: c_long) -> c_int;
    fn mpfr_get_emin_min() -> c_long;
    fn mpfr_get_emax_max() -> c_long;
    fn mpfr_check_range(x: FP, t: c_int, r: c_int) -> c_int;
    fn mpfr_subnormalize(x: FP, t: c_int, r: c_int) -> c_int;
    fn mpfr_set4(x: FP, y: CP, r: c_int, s: c_int) -> c_int;
    fn mpfr_set_nan(x: FP);
    fn mpfr_set_inf(x: FP, s: c_int);
    fn mpfr_set_zero(x: FP, s: c_int);
    fn mpfr_set_si_2exp(x: FP, v: c_long, e: c_long, r: c_int) -> c_int;
    fn mpfr_set_d(x: FP, v: f64, r: c_int) -> c_int;
    fn mpfr_get_d(x: CP, r: c_int) -> f64;
    fn mpfr_set_z_2exp(x: FP, z: *const MpzT, e: c_long, r: c_int) -> c_int;
    fn mpfr_get_z_2exp(z: *mut MpzT, x: CP) -> c_long;
    fn mpfr_get_z(z: *mut MpzT, x: CP, r: c_int) -> c_int;
    fn mpfr_nan_p(x: CP) -> c_int;
    fn mpfr_inf_p(x: CP) -> c_int;
    fn mpfr_zero_p(x: CP) -> c_int;
    fn mpfr_signbit(x: CP) -> c_int;
    fn mpfr_add(z: FP, x: CP, y: CP, r: c_int) -> c_int;
    fn mpfr_sub(z: FP, x: CP, y: CP, r: c_int) -> c_int;
    fn mpfr_mul(z: FP, x: CP, y: CP, r: c_int) -> c_int;
    fn mpfr_div(z: FP, x: CP, y: CP, r: c_int) -> c_int;
    fn mpfr_fmod(z: FP, x: CP, y: CP, r: c_int) -> c_int;
    fn mpfr_sqrt(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_abs(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_neg(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_mul_2si(z: FP, x: CP, n: c_long, r: c_int) -> c_int;
    fn mpfr_rint(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_rint_round(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_round(z: FP, x: CP) -> c_int;
    fn mpfr_roundeven(z: FP, x: CP) -> c_int;
    fn mpfr_cmp3(x: CP, y: CP, s: c_int) -> c_int;
    fn mpfr_cmpabs(x: CP, y: CP) -> c_int;
    fn mpfr_sin(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_cos(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_tan(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_asin(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_acos(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_atan(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_atan2(z: FP, y: CP, x: CP, r: c_int) -> c_int;
    fn mpfr_log(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_log2(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_log10(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_exp(z: FP, x: CP, r: c_int) -> c_int;
    fn mpfr_const_pi(z: FP, r: c_int) -> c_int;
    fn mpfr_const_log2(z: FP, r: c_int) -> c_int;
    fn mpfr_strtofr(
        z: FP,
        s: *const c_char,
        e: *mut *mut c_char,
        base: c_int,
        r: c_int,
    ) -> c_int;
    fn mpfr_get_str(
        s: *mut c_char,
        e: *mut c_long,
        base: c_int,
        n: usize,
        x: CP,
        r: c_int,
    ) -> *mut c_char;
    fn mpfr_free_str(s: *mut c_char);
    fn __gmpz_init(x: *mut MpzT);
    fn __gmpz_clear(x: *mut MpzT);
    fn __gmpz_set(x: *mut MpzT, y: *const MpzT);
    fn __gmpz_set_str(x: *mut MpzT, s: *const c_char, b: c_int) -> c_int;
    fn __gmpz_get_str(
        s: *mut c_char,
        b: c_int,
        x: *const MpzT,
    ) -> *mut c_char;
    fn __gmpz_sizeinbase(x: *const MpzT, b: c_int) -> usize;
    fn __gmpz_mul(z: *mut MpzT, x: *const MpzT, y: *const MpzT);
    fn __gmpz_add(z: *mut MpzT, x: *const MpzT, y: *const MpzT);
    fn __gmpz_sub(z: *mut MpzT, x: *const MpzT, y: *const MpzT);
    fn __gmpz_mul_2exp(z: *mut MpzT, x: *const MpzT, n: c_ulong);
    fn __gmpz_tdiv_qr(
        q: *mut MpzT,
        r: *mut MpzT,
        x: *const MpzT,
        y: *const MpzT,
    );
    fn __gmpz_ui_pow_ui(z: *mut MpzT, b: c_ulong, e: c_ulong);
    fn __gmpz_import(
        z: *mut MpzT,
        n: usize,
        order: c_int,
        size: usize,
        endian: c_int,
        nails: usize,
        p: *const c_void,
    );
    fn __gmpz_export(
        p: *mut c_void,
        n: *mut usize,
        order: c_int,
        size: usize,
        endian: c_int,
        nails: usize,
        z: *const MpzT,
    ) -> *mut c_void;
    fn __gmpz_cmp(x: *const MpzT, y: *const MpzT) -> c_int;
    fn __gmpz_tstbit(x: *const MpzT, n: c_ulong) -> c_int;
}

/// Exponent range of binary256 (MPFR's significand is in [1/2, 1)).
pub fn narrow() {
    unsafe {
        mpfr_set_emin(ETINY + 1);
        mpfr_set_emax(EMAX + 1);
    }
}
pub fn wide() {
    unsafe {
        mpfr_set_emin(mpfr_get_emin_min());
        mpfr_set_emax(mpfr_get_emax_max());
    }
}

pub struct Mp(pub MpfrT);
unsafe impl Send for Mp {}

impl Drop for Mp {
    fn drop(&mut self) {
        unsafe { mpfr_clear(&mut self.0) }
    }
}

/// value = (-1)^sign * sig * 2^q for finite non-zero bits
pub fn decode(b: B) -> (bool, B, i64) {
    let be = ((b.0 & !HI_SIGN) >> HI_FRAC) as i64;
    let f = b.0 & HI_FRAC_MASK;
    let neg = b.0 & HI_SIGN != 0;
    if be == 0 {
        (neg, (f, b.1), ETINY)
    } else {
        (neg, (f | (1 << HI_FRAC), b.1), be - BIAS - 236)
    }
}
pub fn is_nan(b: B) -> bool {
    let a = b.0 & !HI_SIGN;
    a > INF.0 || (a == INF.0 && b.1 != 0)
}
pub fn is_inf(b: B) -> bool {
    b.0 & !HI_SIGN == INF.0 && b.1 == 0
}
pub fn is_zero(b: B) -> bool {
    b.0 & !HI_SIGN == 0 && b.1 == 0
}
pub fn is_finite(b: B) -> bool {
    (b.0 & !HI_SIGN) < INF.0
}
pub fn is_neg(b: B) -> bool {
    b.0 & HI_SIGN != 0
}
pub fn neg(b: B) -> B {
    (b.0 ^ HI_SIGN, b.1)
}
pub fn abs(b: B) -> B {
    (b.0 & !HI_SIGN, b.1)
}
pub fn is_fin_nz(b: B) -> bool {
    is_finite(b) && !is_zero(b)
}
pub fn biased(b: B) -> u32 {
    ((b.0 & !HI_SIGN) >> HI_FRAC) as u32
}
pub fn is_sub(b: B) -> bool {
    biased(b) == 0 && !is_zero(b)
}
pub fn shl256(x: B, n: u32) -> B {
    match n {
        0 => x,
        1..=127 => ((x.0 << n) | (x.1 >> (128 - n)), x.1 << n),
        128 => (x.1, 0),
        129..=255 => (x.1 << (n - 128), 0),
        _ => (0, 0),
    }
}
pub fn shr256(x: B, n: u32) -> B {
    match n {
        0 => x,
        1..=127 => (x.0 >> n, (x.1 >> n) | (x.0 << (128 - n))),
        128 => (0, x.0),
        129..=255 => (0, x.0 >> (n - 128)),
        _ => (0, 0),
    }
}
pub fn lz256(x: B) -> u32 {
    if x.0 != 0 {
        x.0.leading_zeros()
    } else {
        128 + x.1.leading_zeros()
    }
}
pub fn tz256(x: B) -> u32 {
    if x.1 != 0 {
        x.1.trailing_zeros()
    } else {
        128 + x.0.trailing_zeros()
    }
}
/// Next bit pattern up / down in magnitude order (adds n to the raw pattern).
pub fn add_bits(b: B, n: i64) -> B {
    let (lo, c) = if n >= 0 {
        b.1.overflowing_add(n as u128)
    } else {
        b.1.overflowing_sub(n.unsigned_abs() as u128)
    };
    let hi = if n >= 0 {
        b.0.wrapping_add(c as u128)
    } else {
        b.0.wrapping_sub(c as u128)
    };
    (hi, lo)
}
/// Unbiased exponent of the leading bit (subnormals included).
pub fn lead_exp(b: B) -> i64 {
    let (_, s, q) = decode(b);
    q + 255 - lz256(s) as i64
}

impl Mp {
    pub fn new(prec: i64) -> Mp {
        unsafe {
            let mut m = Mp(MpfrT {
                prec: 0,
                sign: 0,
                exp: 0,
                d: std::ptr::null_mut(),
            });
            mpfr_init2(&mut m.0, prec as c_long);
            m
        }
    }
    pub fn prec(&self) -> i64 {
        self.0.prec
    }
    pub fn from_bits(b: B) -> Mp {
        let mut m = Mp::new(P);
        m.set_bits(b);
        m
    }
    pub fn set_bits(&mut self, b: B) {
        debug_assert!(self.0.prec == P);
        let neg = is_neg(b);
        unsafe {
            if is_nan(b) {
                mpfr_set_nan(&mut self.0);
            } else if is_inf(b) {
                mpfr_set_inf(&mut self.0, if neg { -1 } else { 1 });
            } else if is_zero(b) {
                mpfr_set_zero(&mut self.0, if neg { -1 } else { 1 });
            } else {
                let (_, s, q) = decode(b);
                let lz = lz256(s);
                let t = shl256(s, lz);
                let d = std::slice::from_raw_parts_mut(self.0.d, 4);
                d[3] = (t.0 >> 64) as u64;
                d[2] = t.0 as u64;
                d[1] = (t.1 >> 64) as u64;
                d[0] = t.1 as u64;
                self.0.sign = if neg { -1 } else { 1 };
                // value = s * 2^q = 0.t * 2^(q + 256 - lz)
                self.0.exp = q + 256 - lz as i64;
            }
        }
    }
    /// Bits of a value that is exactly representable in binary256.
    pub fn to_bits(&self) -> B {
        unsafe {
            let neg = mpfr_signbit(&self.0) != 0;
            let s = if neg { HI_SIGN } else { 0 };
            if mpfr_nan_p(&self.0) != 0 {
                return NAN;
            }
            if mpfr_inf_p(&self.0) != 0 {
                return (INF.0 | s, 0);
            }
            if mpfr_zero_p(&self.0) != 0 {
                return (s, 0);
            }
            assert!(self.0.prec == P);
            let d = std::slice::from_raw_parts(self.0.d, 4);
            let t: B = (
                ((d[3] as u128) << 64) | d[2] as u128,
                ((d[1] as u128) << 64) | d[0] as u128,
            );
            let sig = shr256(t, 19);
            let e = self.0.exp - 1; // exponent of leading bit
            assert!(e <= EMAX && e >= ETINY, "oracle exponent out of range");
            if e >= EMIN {
                let be = (e + BIAS) as u128;
                (s | (be << HI_FRAC) | (sig.0 & HI_FRAC_MASK), sig.1)
            } else {
                let sh = (EMIN - e) as u32;
                assert!(tz256(sig) >= sh, "oracle value not subnormal-exact");
                let r = shr256(sig, sh);
                (s | r.0, r.1)
            }
        }
    }
    pub fn exp(&self) -> i64 {
        self.0.exp
    }
    pub fn is_nan(&self) -> bool {
        unsafe { mpfr_nan_p(&self.0) != 0 }
    }
    pub fn is_zero(&self) -> bool {
        unsafe { mpfr_zero_p(&self.0) != 0 }
    }
    pub fn is_inf(&self) -> bool {
        unsafe { mpfr_inf_p(&self.0) != 0 }
    }
    pub fn is_neg(&self) -> bool {
        unsafe { mpfr_signbit(&self.0) != 0 }
    }
    pub fn set_si_2exp(&mut self, v: i64, e: i64) {
        unsafe {
            mpfr_set_si_2exp(&mut self.0, v, e, RNDN);
        }
    }
    pub fn to_f64(&self) -> f64 {
        unsafe { mpfr_get_d(&self.0, RNDN) }
    }
    pub fn set_d(&mut self, v: f64) -> i32 {
        unsafe { mpfr_set_d(&mut self.0, v, RNDN) }
    }
    pub fn set_z_2exp(&mut self, z: &Mpz, e: i64) -> i32 {
        unsafe { mpfr_set_z_2exp(&mut self.0, &z.0, e, RNDN) }
    }
    pub fn get_z_2exp(&self) -> (Mpz, i64) {
        let mut z = Mpz::new();
        let e = unsafe { mpfr_get_z_2exp(&mut z.0, &self.0) };
        (z, e)
    }
    pub fn get_z(&self) -> Mpz {
        let mut z = Mpz::new();
        unsafe { mpfr_get_z(&mut z.0, &self.0, RNDN) };
        z
    }
    pub fn cmp(&self, o: &Mp) -> i32 {
        unsafe { mpfr_cmp3(&self.0, &o.0, 1) }
    }
    pub fn cmpabs(&self, o: &Mp) -> i32 {
        unsafe { mpfr_cmpabs(&self.0, &o.0) }
    }
    pub fn set(&mut self, o: &Mp) -> i32 {
        unsafe { mpfr_set4(&mut self.0, &o.0, RNDN, o.0.sign) }
    }
    pub fn mul_2si(&mut self, o: &Mp, n: i64) -> i32 {
        unsafe { mpfr_mul_2si(&mut self.0, &o.0, n, RNDN) }
    }
    pub fn const_pi(&mut self) -> i32 {
        unsafe { mpfr_const_pi(&mut self.0, RNDN) }
    }
    pub fn const_log2(&mut self) -> i32 {
        unsafe { mpfr_const_log2(&mut self.0, RNDN) }
    }
    pub fn strtofr(&mut self, s: &str) -> (i32, usize) {
        let c = CString::new(s).unwrap();
        let mut end: *mut c_char = std::ptr::null_mut();
        let t = unsafe {
            mpfr_strtofr(&mut self.0, c.as_ptr(), &mut end, 10, RNDN)
        };
        (t, end as usize - c.as_ptr() as usize)
    }
    /// (negative, digits, e) with value ~ 0.digits * 10^e
    pub fn get_str(&self, n: usize, rnd: c_int) -> (bool, String, i64) {
        unsafe {
            let mut e: c_long = 0;
            let p = mpfr_get_str(
                std::ptr::null_mut(),
                &mut e,
                10,
                n,
                &self.0,
                rnd,
            );
            let s = CStr::from_ptr(p).to_str().unwrap().to_string();
            mpfr_free_str(p);
            match s.strip_prefix('-') {
                Some(r) => (true, r.to_string(), e),
                None => (false, s, e),
            }
        }
    }
}

macro_rules! un {
    ($($n:ident $f:ident),*) => {impl Mp {$(
        pub fn $n(&mut self, x: &Mp) -> i32 {
            unsafe { $f(&mut self.0, &x.0, RNDN) }
        }
    )*}};
}
macro_rules! bin {
    ($($n:ident $f:ident),*) => {impl Mp {$(
        pub fn $n(&mut self, x: &Mp, y: &Mp) -> i32 {
            unsafe { $f(&mut self.0, &x.0, &y.0, RNDN) }
        }
    )*}};
}
un!(sqrt mpfr_sqrt, mabs mpfr_abs, mneg mpfr_neg, sin mpfr_sin, cos mpfr_cos,
    tan mpfr_tan, asin mpfr_asin, acos mpfr_acos, atan mpfr_atan,
    log mpfr_log, log2 mpfr_log2, log10 mpfr_log10, exp_ mpfr_exp);
bin!(add mpfr_add, sub mpfr_sub, mul mpfr_mul, div mpfr_div, fmod mpfr_fmod,
     atan2 mpfr_atan2);
impl Mp {
    pub fn rint_mode(&mut self, x: &Mp, mode: Rint) -> i32 {
        unsafe {
            match mode {
                Rint::Trunc => mpfr_rint(&mut self.0, &x.0, RNDZ),
                Rint::Ceil => mpfr_rint(&mut self.0, &x.0, RNDU),
                Rint::Floor => mpfr_rint(&mut self.0, &x.0, RNDD),
                Rint::Away => mpfr_round(&mut self.0, &x.0),
                Rint::Even => mpfr_roundeven(&mut self.0, &x.0),
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rint {
    Trunc,
    Ceil,
    Floor,
    Away,
    Even,
}

/// Round the exact or rounded-to-237-bits value `r` (computed in the wide
/// range with ternary value `t`) to binary256.
pub fn finish(mut r: Mp, t: i32) -> B {
    narrow();
    let b = unsafe {
        let t = mpfr_check_range(&mut r.0, t, RNDN);
        mpfr_subnormalize(&mut r.0, t, RNDN);
        r.to_bits()
    };
    wide();
    b
}
/// Round an arbitrary-precision exact value to binary256.
pub fn round_to_bits(x: &Mp) -> B {
    let mut r = Mp::new(P);
    let t = r.set(x);
    finish(r, t)
}
/// Correctly rounded unary function.
pub fn un(f: fn(&mut Mp, &Mp) -> i32, x: B) -> B {
    let a = Mp::from_bits(x);
    let mut r = Mp::new(P);
    let t = f(&mut r, &a);
    finish(r, t)
}
pub fn bin(f: fn(&mut Mp, &Mp, &Mp) -> i32, x: B, y: B) -> B {
    let (a, b) = (Mp::from_bits(x), Mp::from_bits(y));
    let mut r = Mp::new(P);
    let t = f(&mut r, &a, &b);
    finish(r, t)
}
/// a*b + c with one rounding (product exact in 474 bits).
pub fn fma(a: B, b: B, c: B) -> B {
    let (a, b, c) = (Mp::from_bits(a), Mp::from_bits(b), Mp::from_bits(c));
    let mut p = Mp::new(2 * P);
    p.mul(&a, &b);
    let mut r = Mp::new(P);
    let t = r.add(&p, &c);
    finish(r, t)
}
/// a*b + c*d with one rounding.
pub fn fmma(a: B, b: B, c: B, d: B) -> B {
    let (a, b) = (Mp::from_bits(a), Mp::from_bits(b));
    let (c, d) = (Mp::from_bits(c), Mp::from_bits(d));
    let mut p = Mp::new(2 * P);
    p.mul(&a, &b);
    let mut q = Mp::new(2 * P);
    q.mul(&c, &d);
    let mut r = Mp::new(P);
    let t = r.add(&p, &q);
    finish(r, t)
}
/// Correctly rounded value of a decimal literal (only plain numbers).
pub fn parse_dec(s: &str) -> B {
    let mut r = Mp::new(P);
    let (t, n) = r.strtofr(s);
    assert!(n == s.len(), "oracle cannot parse {s:?}");
    finish(r, t)
}

pub struct Mpz(pub MpzT);
unsafe impl Send for Mpz {}
impl Drop for Mpz {
    fn drop(&mut self) {
        unsafe { __gmpz_clear(&mut self.0) }
    }
}
impl Clone for Mpz {
    fn clone(&self) -> Mpz {
        let mut z = Mpz::new();
        unsafe { __gmpz_set(&mut z.0, &self.0) };
        z
    }
}
impl Mpz {
    pub fn new() -> Mpz {
        unsafe {
            let mut z = Mpz(MpzT {
                alloc: 0,
                size: 0,
                d: std::ptr::null_mut(),
            });
            __gmpz_init(&mut z.0);
            z
        }
    }
    pub fn from_b(b: B) -> Mpz {
        let mut z = Mpz::new();
        let w = [b.1 as u64, (b.1 >> 64) as u64, b.0 as u64, (b.0 >> 64) as u64];
        unsafe {
            __gmpz_import(&mut z.0, 4, -1, 8, 0, 0, w.as_ptr() as *const _)
        };
        z
    }
    pub fn from_u(v: u64) -> Mpz {
        Mpz::from_b((0, v as u128))
    }
    pub fn from_dec(s: &str) -> Mpz {
        let mut z = Mpz::new();
        let c = CString::new(s).unwrap();
        let r = unsafe { __gmpz_set_str(&mut z.0, c.as_ptr(), 10) };
        assert!(r == 0);
        z
    }
    pub fn pow5(e: u64) -> Mpz {
        let mut z = Mpz::new();
        unsafe { __gmpz_ui_pow_ui(&mut z.0, 5, e as c_ulong) };
        z
    }
    pub fn pow10(e: u64) -> Mpz {
        let mut z = Mpz::new();
        unsafe { __gmpz_ui_pow_ui(&mut z.0, 10, e as c_ulong) };
        z
    }
    pub fn is_zero(&self) -> bool {
        self.0.size == 0
    }
    pub fn neg_p(&self) -> bool {
        self.0.size < 0
    }
    pub fn bits(&self) -> u64 {
        if self.is_zero() {
            0
        } else {
            unsafe { __gmpz_sizeinbase(&self.0, 2) as u64 }
        }
    }
    pub fn bit(&self, n: u64) -> bool {
        unsafe { __gmpz_tstbit(&self.0, n as c_ulong) != 0 }
    }
    /// The value as 256 bits (must fit, sign dropped).
    pub fn to_b(&self) -> B {
        assert!(self.bits() <= 256);
        let mut w = [0u64; 4];
        let mut n = 0usize;
        unsafe {
            __gmpz_export(
                w.as_mut_ptr() as *mut _,
                &mut n,
                -1,
                8,
                0,
                0,
                &self.0,
            )
        };
        (
            ((w[3] as u128) << 64) | w[2] as u128,
            ((w[1] as u128) << 64) | w[0] as u128,
        )
    }
    pub fn to_dec(&self) -> String {
        unsafe {
            let n = __gmpz_sizeinbase(&self.0, 10) + 2;
            let mut v = vec![0u8; n];
            __gmpz_get_str(v.as_mut_ptr() as *mut c_char, 10, &self.0);
            let end = v.iter().position(|&c| c == 0).unwrap();
            v.truncate(end);
            String::from_utf8(v).unwrap()
        }
    }
    pub fn mul(&self, o: &Mpz) -> Mpz {
        let mut z = Mpz::new();
        unsafe { __gmpz_mul(&mut z.0, &self.0, &o.0) };
        z
    }
    pub fn add(&self, o: &Mpz) -> Mpz {
        let mut z = Mpz::new();
        unsafe { __gmpz_add(&mut z.0, &self.0, &o.0) };
        z
    }
    pub fn sub(&self, o: &Mpz) -> Mpz {
        let mut z = Mpz::new();
        unsafe { __gmpz_sub(&mut z.0, &self.0, &o.0) };
        z
    }
    pub fn shl(&self, n: u64) -> Mpz {
        let mut z = Mpz::new();
        unsafe { __gmpz_mul_2exp(&mut z.0, &self.0, n as c_ulong) };
        z
    }
    pub fn div_rem(&self, o: &Mpz) -> (Mpz, Mpz) {
        let (mut q, mut r) = (Mpz::new(), Mpz::new());
        unsafe { __gmpz_tdiv_qr(&mut q.0, &mut r.0, &self.0, &o.0) };
        (q, r)
    }
    pub fn cmp(&self, o: &Mpz) -> std::cmp::Ordering {
        unsafe { __gmpz_cmp(&self.0, &o.0).cmp(&0) }
    }
}
