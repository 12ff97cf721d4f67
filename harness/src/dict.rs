//! Dictionary for the generators: the integer literals that occur in the
//! non-test code under test (thresholds, masks, table entries), as a fuzzer's
//! auto-dictionary.  It steers what is generated, never what is judged.
use crate::mp::B;
use crate::rng::Rng;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
struct File {
    small: Vec<i64>,
    wide: Vec<B>,
}
struct Dict {
    small: Vec<Vec<i64>>,
    wide: Vec<Vec<B>>,
}

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

/// Drop comments and `#[cfg(test)]` modules.
fn strip(s: &str) -> String {
    let mut out = String::new();
    let mut skip = false;
    let mut depth = 0i32;
    let mut opened = false;
    for l in s.lines() {
        let l = match l.find("//") {
            Some(i) => &l[..i],
            None => l,
        };
        if !skip && l.trim() == "#[cfg(test)]" {
            skip = true;
            depth = 0;
            opened = false;
            continue;
        }
        if skip {
            for c in l.chars() {
                match c {
                    '{' => {
                        depth += 1;
                        opened = true
                    }
                    '}' => depth -= 1,
                    ';' if !opened => {
                        skip = false;
                        break;
                    }
                    _ => {}
                }
            }
            if opened && depth <= 0 {
                skip = false;
            }
            continue;
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

fn literals(s: &str) -> Vec<u128> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if b[i].is_ascii_digit() && (i == 0 || !word(b[i - 1])) {
            let st = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            let t: String = s[st..i].chars().filter(|c| *c != '_').collect();
            let (radix, t) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let end = t.find(|c: char| !c.is_digit(radix)).unwrap_or(t.len());
            if let Ok(x) = u128::from_str_radix(&t[..end], radix) {
                v.push(x);
            }
        } else {
            i += 1;
        }
    }
    v
}

fn load() -> Dict {
    let dir = std::env::var("VERIF_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut ps = vec![];
    files(Path::new(&dir), &mut ps);
    let mut d = Dict { small: vec![], wide: vec![] };
    for p in ps {
        let Ok(s) = std::fs::read_to_string(&p) else { continue };
        let l = literals(&strip(&s));
        let mut f = File::default();
        for (i, &x) in l.iter().enumerate() {
            if x < 1 << 20 {
                if x > 8 {
                    f.small.push(x as i64);
                }
            } else {
                f.wide.push((x, 0));
                f.wide.push((0, x));
                if let Some(&y) = l.get(i + 1) {
                    f.wide.push((x, y));
                    f.wide.push((y, x));
                }
            }
        }
        for v in [&mut f.small] {
            v.sort();
            v.dedup();
        }
        f.wide.sort();
        f.wide.dedup();
        if !f.small.is_empty() {
            d.small.push(f.small);
        }
        if !f.wide.is_empty() {
            d.wide.push(f.wide);
        }
    }
    d
}
fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(load)
}

/// A small number from the code (9..2^20) or next to one.
pub fn small(r: &mut Rng) -> Option<i64> {
    let d = &dict().small;
    if d.is_empty() {
        return None;
    }
    let x = {
        let f = r.pick(d);
        *r.pick(f)
    };
    Some(x + r.range(-1, 1))
}
/// 256 bits from the code.
pub fn wide(r: &mut Rng) -> Option<B> {
    let d = &dict().wide;
    if d.is_empty() {
        return None;
    }
    Some({
        let f = r.pick(d);
        *r.pick(f)
    })
}
