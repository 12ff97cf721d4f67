//! A test case: operation name, float operands (raw bits), integers, strings.
//! Text form for replay files, and a greedy shrinker.
use crate::mp::{is_finite, is_neg, neg, B, HI_FRAC, HI_FRAC_MASK, ONE};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub f: Vec<B>,
    pub i: Vec<i128>,
    pub s: Vec<String>,
}

impl Case {
    pub fn f(f: &[B]) -> Case {
        Case { f: f.to_vec(), i: vec![], s: vec![] }
    }
    pub fn fi(f: &[B], i: &[i128]) -> Case {
        Case { f: f.to_vec(), i: i.to_vec(), s: vec![] }
    }
    pub fn s(s: String) -> Case {
        Case { f: vec![], i: vec![], s: vec![s] }
    }
    pub fn hash(&self, salt: u64) -> u64 {
        let mut h = salt ^ 0x9e3779b97f4a7c15;
        let mut mix = |v: u64| {
            h ^= v;
            h = h.wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 32;
        };
        for b in &self.f {
            mix(b.0 as u64);
            mix((b.0 >> 64) as u64);
            mix(b.1 as u64);
            mix((b.1 >> 64) as u64);
        }
        for i in &self.i {
            mix(*i as u64);
            mix((*i >> 64) as u64);
        }
        for s in &self.s {
            for c in s.as_bytes().chunks(8) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                mix(u64::from_le_bytes(w) ^ c.len() as u64);
            }
            mix(s.len() as u64);
        }
        h ^= h >> 29;
        h.wrapping_mul(0xc4ceb9fe1a85ec53)
    }
    /// One-line human readable form.
    pub fn show(&self, op: &str) -> String {
        let mut o = op.to_string();
        for b in &self.f {
            o.push_str(&format!(" {:032x}_{:032x}", b.0, b.1));
        }
        for i in &self.i {
            o.push_str(&format!(" {i}"));
        }
        for s in &self.s {
            if s.len() > 300 {
                let a: String = s.chars().take(120).collect();
                let z: String = s.chars().rev().take(60).collect::<Vec<_>>()
                    .into_iter().rev().collect();
                o.push_str(&format!(" {a:?}...({} chars)...{z:?}", s.len()));
            } else {
                o.push_str(&format!(" {s:?}"));
            }
        }
        o
    }
    pub fn to_text(&self, prop: &str, op: &str) -> String {
        let mut o = format!("property {prop}\nop {op}\n");
        for b in &self.f {
            o.push_str(&format!("f {:032x} {:032x}\n", b.0, b.1));
        }
        for i in &self.i {
            o.push_str(&format!("i {i}\n"));
        }
        for s in &self.s {
            let hex: String = s.bytes().map(|c| format!("{c:02x}")).collect();
            o.push_str(&format!("s {hex}.\n"));
        }
        o
    }
    /// (property, op, case)
    pub fn from_text(t: &str) -> Option<(String, String, Case)> {
        let (mut p, mut op) = (String::new(), String::new());
        let mut c = Case { f: vec![], i: vec![], s: vec![] };
        for l in t.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("property") => p = w.next()?.to_string(),
                Some("op") => op = w.next()?.to_string(),
                Some("f") => c.f.push((
                    u128::from_str_radix(w.next()?, 16).ok()?,
                    u128::from_str_radix(w.next()?, 16).ok()?,
                )),
                Some("i") => c.i.push(w.next()?.parse().ok()?),
                Some("s") => {
                    let h = w.next()?.trim_end_matches('.');
                    let v: Option<Vec<u8>> = (0..h.len() / 2)
                        .map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).ok())
                        .collect();
                    c.s.push(String::from_utf8(v?).ok()?);
                }
                _ => {}
            }
        }
        if op.is_empty() {
            None
        } else {
            Some((p, op, c))
        }
    }

    /// Simpler variants, most aggressive first.
    fn candidates(&self) -> Vec<Case> {
        let mut v = vec![];
        for k in 0..self.f.len() {
            let b = self.f[k];
            let mut put = |nb: B| {
                if nb != b {
                    let mut c = self.clone();
                    c.f[k] = nb;
                    v.push(c);
                }
            };
            if b != ONE && b != neg(ONE) {
                put(ONE);
            }
            if is_neg(b) {
                put(neg(b));
            }
            if is_finite(b) {
                let be = ((b.0 << 1) >> (HI_FRAC + 1)) as i64;
                // exponent towards the bias
                let d = be - crate::mp::BIAS;
                for nd in [0, d / 2, d - d.signum()] {
                    if nd != d && be != 0 {
                        put((
                            (b.0 & !(0x7ffffu128 << HI_FRAC))
                                | (((crate::mp::BIAS + nd) as u128) << HI_FRAC),
                            b.1,
                        ));
                    }
                }
                // clear fraction bits
                put((b.0 & !HI_FRAC_MASK, 0));
                put((b.0, 0));
                put((b.0 & !HI_FRAC_MASK, b.1));
                for sh in [96, 64, 32, 16, 8] {
                    let m = u128::MAX << sh;
                    put((b.0, b.1 & m));
                    put((b.0 & (m | !HI_FRAC_MASK), b.1));
                }
                let set = b.1.count_ones() + (b.0 & HI_FRAC_MASK).count_ones();
                if set <= 40 {
                    for p in 0..128 {
                        if b.1 >> p & 1 == 1 {
                            put((b.0, b.1 & !(1 << p)));
                        }
                    }
                    for p in 0..HI_FRAC {
                        if b.0 >> p & 1 == 1 {
                            put((b.0 & !(1 << p), b.1));
                        }
                    }
                } else {
                    // lowest set bits
                    put((b.0, b.1 & b.1.wrapping_sub(1)));
                    let h = b.0 & HI_FRAC_MASK;
                    put(((b.0 & !HI_FRAC_MASK) | (h & h.wrapping_sub(1)), b.1));
                }
            }
        }
        for k in 0..self.i.len() {
            let x = self.i[k];
            for nx in [0, 1, x / 2, x - x.signum()] {
                if nx.unsigned_abs() < x.unsigned_abs() {
                    let mut c = self.clone();
                    c.i[k] = nx;
                    v.push(c);
                }
            }
        }
        for k in 0..self.s.len() {
            let cs: Vec<char> = self.s[k].chars().collect();
            let mut put = |ns: String| {
                let mut c = self.clone();
                c.s[k] = ns;
                v.push(c);
            };
            let mut chunk = cs.len();
            while chunk >= 1 {
                let mut st = 0;
                let mut tries = 0;
                while st < cs.len() && tries < 64 {
                    let e = (st + chunk).min(cs.len());
                    let ns: String = cs[..st].iter().chain(&cs[e..]).collect();
                    put(ns);
                    st = e;
                    tries += 1;
                }
                chunk /= 2;
            }
            for p in 0..cs.len().min(120) {
                if cs[p].is_ascii_digit() && cs[p] > '1' {
                    for d in ['0', '1'] {
                        let mut n = cs.clone();
                        n[p] = d;
                        put(n.into_iter().collect());
                    }
                }
            }
        }
        v
    }
}

/// Greedy shrink; `fails` tells whether a case still violates.
pub fn shrink(c: &Case, fails: &dyn Fn(&Case) -> bool) -> Case {
    let mut cur = c.clone();
    let t0 = std::time::Instant::now();
    'outer: for _ in 0..2000 {
        for n in cur.candidates() {
            if t0.elapsed().as_secs() > 15 {
                break 'outer;
            }
            if fails(&n) {
                cur = n;
                continue 'outer;
            }
        }
        break;
    }
    cur
}
