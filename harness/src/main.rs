//! vh: generated-input checks of f256 against independent oracles.
//!
//!   vh check PROP [--tier quick|thorough] [--seed N] [--part FILE] [--merge FILE]
//!   vh replay FILE
//!   vh explore PROP [OP] [--n N] [--seed N] [--max K]
//!   vh list
mod case;
mod dec;
mod dict;
mod gen;
mod mp;
mod props;
mod rng;
mod worst;

use case::{shrink, Case};
use rng::{splitmix, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Outcome of one case: Ok(non-trivial?) or a description of the violation.
pub type Res = Result<bool, String>;

pub struct Op {
    pub prop: &'static str,
    pub name: &'static str,
    /// cases of the quick tier
    pub n: u64,
    pub gen: fn(&mut Rng) -> Case,
    /// enumerated cases run before the random ones
    pub grid: Option<fn() -> Vec<Case>>,
    pub check: fn(&Case) -> Res,
}

pub const THREADS: usize = 8;
/// Grid cases per work item; random cases per work item at most.
const BLOCK: u64 = 128;
fn block(op: &Op) -> u64 {
    (op.n / 64).clamp(1, BLOCK)
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if loc.starts_with("src/") {
            eprintln!("vh: internal panic at {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Out {
    Fine(bool),
    Bad(String),
    Harness(String),
}

pub fn run_case(op: &Op, c: &Case) -> Out {
    match catch_unwind(AssertUnwindSafe(|| (op.check)(c))) {
        Ok(Ok(nt)) => Out::Fine(nt),
        Ok(Err(m)) => Out::Bad(m),
        Err(_) => {
            mp::wide();
            let (msg, loc) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            // panics of the harness itself are errors of the check
            if loc.starts_with("src/") {
                Out::Harness(format!("harness panic at {loc}: {msg}"))
            } else {
                Out::Bad(format!("panic: {msg} (at {loc})"))
            }
        }
    }
}

/// One-hash bitmap: the number of bits set is a lower bound of the number of
/// distinct hashes.
struct Distinct {
    bits: Vec<AtomicU64>,
    n: AtomicU64,
}
const DBITS: u32 = 30;
impl Distinct {
    fn new() -> Self {
        let mut bits = Vec::new();
        bits.resize_with(1 << (DBITS - 6), || AtomicU64::new(0));
        Distinct { bits, n: AtomicU64::new(0) }
    }
    fn add(&self, h: u64) {
        let k = (h >> (64 - DBITS)) as usize;
        let m = 1u64 << (k & 63);
        if self.bits[k >> 6].load(Relaxed) & m == 0
            && self.bits[k >> 6].fetch_or(m, Relaxed) & m == 0
        {
            self.n.fetch_add(1, Relaxed);
        }
    }
}

fn seed_of(seed: u64, op: usize, name: &str, block: u64) -> u64 {
    let mut h = seed ^ 0x51_7c_c1_b7_27_22_0a_95;
    let mut x = splitmix(&mut h);
    let _ = op;
    for b in name.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    x ^= block.wrapping_mul(0x9e3779b97f4a7c15);
    splitmix(&mut x)
}

#[derive(Default, Clone)]
struct OpStat {
    evals: u64,
    nontrivial: u64,
    grid: u64,
}

struct Failure {
    op: &'static str,
    msg: String,
    replay: String,
    text: String,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    op: String,
    case: Case,
    /// A failure is this finding if it fails in exactly this way (the check
    /// says so by a message starting with "[sig]"), for any input; without a
    /// signature only the listed case is the finding.
    sig: Option<String>,
    text: String,
}

fn known_findings(prop: &str) -> Vec<Known> {
    // finding: property=<id> case=<file under known/> [sig=<name>] <what fails>
    let mut v = vec![];
    let f = format!("{}/KNOWN_FINDINGS.txt", verif_dir());
    if let Ok(t) = std::fs::read_to_string(f) {
        for l in t.lines() {
            let Some(r) = l.strip_prefix("finding: ") else { continue };
            let mut w = r.splitn(3, ' ');
            let (Some(p), Some(c), Some(d)) = (w.next(), w.next(), w.next())
            else {
                continue;
            };
            if p != format!("property={prop}") {
                continue;
            }
            let Some(path) = c.strip_prefix("case=") else { continue };
            if let Ok(t) =
                std::fs::read_to_string(format!("{}/{}", verif_dir(), path))
            {
                if let Some((_, op, case)) = Case::from_text(&t) {
                    let (sig, text) = match d.strip_prefix("sig=") {
                        Some(x) => {
                            let (s, t) = x.split_once(' ').unwrap_or((x, ""));
                            (Some(s.to_string()), t.to_string())
                        }
                        None => (None, d.to_string()),
                    };
                    v.push(Known { op, case, sig, text });
                }
            }
        }
    }
    v
}

impl Known {
    fn covers(&self, op: &str, c: &Case, msg: &str) -> bool {
        op == self.op
            && match &self.sig {
                Some(s) => msg.starts_with(&format!("[{s}]")),
                None => self.case.show(op) == c.show(op),
            }
    }
}

fn corpus(prop: &str) -> Vec<(String, Case)> {
    let mut v = vec![];
    let d = format!("{}/corpus/{}", verif_dir(), prop);
    if let Ok(rd) = std::fs::read_dir(d) {
        let mut ps: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        ps.sort();
        for p in ps {
            if let Ok(t) = std::fs::read_to_string(&p) {
                // several cases per file, separated by blank lines
                for part in t.split("\n\n") {
                    if let Some((_, op, c)) = Case::from_text(part) {
                        v.push((op, c));
                    }
                }
            }
        }
    }
    v
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

struct Args {
    pos: Vec<String>,
    opt: BTreeMap<String, String>,
}
fn parse_args() -> Args {
    let mut a = Args { pos: vec![], opt: BTreeMap::new() };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            a.opt.insert(k.to_string(), it.next().unwrap_or_default());
        } else {
            a.pos.push(x);
        }
    }
    a
}

fn die(m: &str) -> ! {
    eprintln!("vh: error: {m}");
    std::process::exit(2)
}

fn cmd_check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let prop = a.pos.get(1).cloned().unwrap_or_else(|| die("no property"));
    let tier = a.opt.get("tier").cloned().unwrap_or_else(|| "quick".into());
    let seed: u64 =
        a.opt.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let ops: Vec<Op> =
        props::all().into_iter().filter(|o| o.prop == prop).collect();
    if ops.is_empty() {
        die(&format!("unknown property {prop}"));
    }
    let part = a.opt.get("part");
    // The checked build runs a share of the same kind of cases, seeded apart.
    let (num, den): (u64, u64) = match (tier.as_str(), part.is_some()) {
        ("quick", false) => (1, 1),
        ("quick", true) => (1, 5),
        (_, false) => (20, 1),
        (_, true) => (4, 1),
    };
    let num = a
        .opt
        .get("scale")
        .and_then(|s| s.parse().ok())
        .map(|s: u64| num * s)
        .unwrap_or(num);
    let seed_eff = if part.is_some() { seed ^ 0xdeb06 } else { seed };

    let stats: Vec<Mutex<OpStat>> =
        ops.iter().map(|_| Mutex::new(OpStat::default())).collect();
    let failed: Vec<AtomicBool> =
        ops.iter().map(|_| AtomicBool::new(false)).collect();
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    let distinct = Distinct::new();
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let known = known_findings(&prop);
    let known_hits = AtomicU64::new(0);
    let replay_dir = format!("{}/.work/replay", verif_dir());
    let _ = std::fs::create_dir_all(&replay_dir);

    // current case of each thread, for the watchdog
    type Slot = Mutex<Option<(Instant, usize, Case)>>;
    let slots: Vec<Slot> = (0..THREADS).map(|_| Mutex::new(None)).collect();
    let run_watched = |th: usize, k: usize, c: &Case| {
        *slots[th].lock().unwrap() = Some((Instant::now(), k, c.clone()));
        let out = run_case(&ops[k], c);
        *slots[th].lock().unwrap() = None;
        out
    };

    let report = |th: usize, k: usize, c: &Case, msg: String| {
        let op = &ops[k];
        let is_known =
            |c: &Case, m: &str| known.iter().any(|k| k.covers(op.name, c, m));
        if is_known(c, &msg) {
            known_hits.fetch_add(1, Relaxed);
            return;
        }
        if failed[k].swap(true, SeqCst) {
            return;
        }
        let m = shrink(
            c,
            &|x| matches!(run_watched(th, k, x), Out::Bad(m) if !is_known(x, &m)),
        );
        let msg = match run_case(op, &m) {
            Out::Bad(s) => s,
            _ => msg,
        };
        let path =
            format!("{replay_dir}/{prop}-{}-{}.case", op.name, profile());
        let text = m.to_text(&prop, op.name)
            + &format!("profile {}\nmsg {}\n", profile(), msg.replace('\n', " "));
        let _ = std::fs::write(&path, &text);
        failures.lock().unwrap().push(Failure {
            op: op.name,
            msg,
            replay: path,
            text: m.show(op.name),
        });
    };

    let handle = |th: usize, k: usize, c: &Case, grid: bool, st: &mut OpStat| {
        let out = run_watched(th, k, c);
        st.evals += 1;
        st.grid += grid as u64;
        match out {
            Out::Fine(nt) => {
                if nt {
                    st.nontrivial += 1;
                    distinct.add(c.hash(k as u64 + 1));
                }
            }
            Out::Bad(m) => report(th, k, c, m),
            Out::Harness(m) => {
                let mut h = harness_err.lock().unwrap();
                if h.is_none() {
                    *h = Some(format!("{m} on {}", c.show(ops[k].name)));
                }
            }
        }
    };

    // Work items: (op, grid chunk) first, then random blocks.
    let mut items: Vec<(usize, u64, bool)> = vec![];
    let grids: Vec<Vec<Case>> = ops
        .iter()
        .map(|o| match (part.is_some(), o.grid) {
            (_, Some(g)) => g(),
            _ => vec![],
        })
        .collect();
    for (k, g) in grids.iter().enumerate() {
        for b in 0..(g.len() as u64).div_ceil(block(&ops[k])) {
            items.push((k, b, true));
        }
    }
    let mut rnd: Vec<(usize, u64, bool)> = vec![];
    for (k, o) in ops.iter().enumerate() {
        let n = (o.n * num / den).max(16);
        for b in 0..n.div_ceil(block(o)) {
            rnd.push((k, b, false));
        }
    }
    // interleave operations, so that slow ones do not pile up at the end
    rnd.sort_by_key(|x| {
        let mut s = x.1 ^ ((x.0 as u64) << 40);
        splitmix(&mut s)
    });
    items.extend(rnd);
    // The work is fixed; the deadline is only there for code that became many
    // times slower, so that the check still gives an answer.
    let limit = match (tier.as_str(), part.is_some()) {
        ("quick", true) => 150,
        ("quick", false) => 400,
        _ => 10_000,
    };
    let cut_short = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);

    let corp = corpus(&prop);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            // Watchdog: a case that does not return within a minute is run
            // again, alone, in a process of its own.
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for s in &slots {
                    let cur = s.lock().unwrap().clone();
                    let Some((t, k, c)) = cur else { continue };
                    if t.elapsed() > Duration::from_secs(60) {
                        let op = &ops[k];
                        let path = format!(
                            "{replay_dir}/{prop}-{}-hang.case",
                            op.name
                        );
                        let text = c.to_text(&prop, op.name)
                            + &format!("profile {}\nmsg does not return\n", profile());
                        let _ = std::fs::write(&path, text);
                        let hang = confirm_hang(&path);
                        if hang {
                            println!("FAIL {} {}: does not return", prop, c.show(op.name));
                            println!("VIOLATION property={prop} replay={path}");
                            std::process::exit(1);
                        }
                        // merely starved: give it more time
                        if let Some(x) = s.lock().unwrap().as_mut() {
                            x.0 = Instant::now();
                        }
                    }
                }
            }
        });
        // regression corpus
    {
        let mut st = OpStat::default();
        for (o, c) in &corp {
            if let Some(k) = ops.iter().position(|x| x.name == o) {
                handle(0, k, c, false, &mut st);
                let mut s = stats[k].lock().unwrap();
                s.evals += st.evals;
                s.nontrivial += st.nontrivial;
                st = OpStat::default();
            }
        }
    }

        let hs: Vec<_> = (0..THREADS)
            .map(|th| {
                let (next, items, ops, failed, stats, samples, grids, handle, harness_err, cut_short) = (
                    &next, &items, &ops, &failed, &stats, &samples, &grids,
                    &handle, &harness_err, &cut_short,
                );
                sc.spawn(move || {
                    mp::wide();
                    loop {
                        let n = next.fetch_add(1, Relaxed);
                        if n >= items.len() || harness_err.lock().unwrap().is_some() {
                            break;
                        }
                        if t0.elapsed().as_secs() > limit {
                            cut_short.store(true, Relaxed);
                            break;
                        }
                        let (k, b, grid) = items[n];
                        if failed[k].load(Relaxed) {
                            continue;
                        }
                        let mut st = OpStat::default();
                        if grid {
                            let g = &grids[k];
                            let bl = block(&ops[k]);
                            let lo = (b * bl) as usize;
                            let hi = (lo + bl as usize).min(g.len());
                            for c in &g[lo..hi] {
                                handle(th, k, c, true, &mut st);
                                if failed[k].load(Relaxed) {
                                    break;
                                }
                            }
                        } else {
                            let mut r =
                                Rng::new(seed_of(seed_eff, k, ops[k].name, b));
                            for j in 0..block(&ops[k]) {
                                let c = (ops[k].gen)(&mut r);
                                if b == 0 && j < 3 {
                                    samples.lock().unwrap().push(c.show(ops[k].name));
                                }
                                handle(th, k, &c, false, &mut st);
                                if failed[k].load(Relaxed) {
                                    break;
                                }
                            }
                        }
                        let mut s = stats[k].lock().unwrap();
                        s.evals += st.evals;
                        s.nontrivial += st.nontrivial;
                        s.grid += st.grid;
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                die("a generator panicked");
            }
        }
        done.store(true, Relaxed);
    });

    if let Some(m) = harness_err.lock().unwrap().take() {
        die(&m);
    }
    // Known findings: run each listed case by itself.
    for k in &known {
        if let Some(op) = ops.iter().find(|x| *x.name == k.op) {
            if part.is_some() {
                continue;
            }
            if let Out::Bad(m) = run_case(op, &k.case) {
                if k.covers(op.name, &k.case, &m) {
                    println!("KNOWN-FINDING: property={prop} {}", k.text);
                }
            }
        }
    }

    let fs = failures.into_inner().unwrap();
    for f in &fs {
        println!("FAIL {} [{}] {}: {}", prop, profile(), f.text, f.msg);
        let _ = f.op;
    }
    let evals: u64 = stats.iter().map(|s| s.lock().unwrap().evals).sum();
    let dn = distinct.n.load(Relaxed);
    let wall = t0.elapsed().as_secs_f64();
    let mut per = vec![];
    for (o, s) in ops.iter().zip(&stats) {
        let s = s.lock().unwrap();
        per.push(format!(
            "{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"enumerated\": {}}}",
            json_str(o.name),
            s.evals,
            s.nontrivial,
            s.grid
        ));
    }
    let per = format!("{{{}}}", per.join(", "));
    if let Some(p) = part {
        let t = format!("{evals}\n{dn}\n{wall}\n{}\n{per}\n", fs.len());
        if std::fs::write(p, t).is_err() {
            die("cannot write partial result");
        }
    } else {
        let (mut e2, mut w2, mut v2, mut per2) =
            (0u64, 0f64, 0usize, String::from("{}"));
        if let Some(m) = a.opt.get("merge") {
            if let Ok(t) = std::fs::read_to_string(m) {
                let l: Vec<&str> = t.lines().collect();
                if l.len() >= 5 {
                    e2 = l[0].parse().unwrap_or(0);
                    w2 = l[2].parse().unwrap_or(0.0);
                    v2 = l[3].parse().unwrap_or(0);
                    per2 = l[4].to_string();
                }
            }
        }
        let mut sm = samples.into_inner().unwrap();
        sm.sort();
        let sm: Vec<String> = sm.iter().take(40).map(|s| json_str(s)).collect();
        let rule = props::rule(&prop);
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"corpus_cases\": {},\n  \"evaluations_with_debug_assertions\": {},\n  \"per_operation\": {},\n  \"per_operation_with_debug_assertions\": {},\n  \"known_finding_hits\": {},\n  \"cut_short_by_deadline\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"GNU MPFR/GMP as installed compute correctly\", \"the four decimal table crates, absent from the repository, are regenerated from their documented definition\", \"distinct_nontrivial counts the release run only, by a one-hash bitmap (a lower bound)\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(&prop), json_str(&tier), seed,
            evals + e2, dn, json_str(rule), corp.len(), e2, per, per2,
            known_hits.load(Relaxed), cut_short.load(Relaxed),
            sm.join(",\n   "), wall + w2, fs.len() + v2
        );
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(format!("{dir}/{prop}.json"), ev).is_err() {
            die("cannot write evidence");
        }
    }
    println!(
        "{prop} [{}] {evals} cases, {dn} distinct non-trivial, {:.1} s, {} violation(s)",
        profile(), wall, fs.len()
    );
    for f in &fs {
        println!("VIOLATION property={prop} replay={}", f.replay);
    }
    if fs.is_empty() {
        0
    } else {
        1
    }
}

/// Run a case alone under a limit of processor time (not of wall-clock time,
/// so that load does not matter): a case normally takes microseconds.
fn confirm_hang(path: &str) -> bool {
    let exe = std::env::current_exe().unwrap();
    let Ok(mut ch) = std::process::Command::new("bash")
        .args(["-c", "ulimit -St 60; exec \"$0\" replay \"$1\""])
        .arg(&exe)
        .arg(path)
        .stdout(std::process::Stdio::null())
        .spawn()
    else {
        return false;
    };
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            // 24: SIGXCPU
            return std::os::unix::process::ExitStatusExt::signal(&st)
                == Some(24);
        }
        if t.elapsed() > Duration::from_secs(300) {
            let _ = ch.kill();
            let _ = ch.wait();
            return false;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
}

fn cmd_replay(a: &Args) -> i32 {
    let p = a.pos.get(1).cloned().unwrap_or_else(|| die("no file"));
    let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&e.to_string()));
    let (prop, op, c) =
        Case::from_text(&t).unwrap_or_else(|| die("bad replay file"));
    let ops = props::all();
    let o = ops
        .iter()
        .find(|o| o.name == op && (prop.is_empty() || o.prop == prop))
        .unwrap_or_else(|| die("unknown operation"));
    match run_case(o, &c) {
        Out::Fine(_) => {
            println!("holds: {}", c.show(&op));
            0
        }
        Out::Bad(m) => {
            println!("FAIL {}: {m}", c.show(&op));
            println!("VIOLATION property={} replay={p}", o.prop);
            1
        }
        Out::Harness(m) => die(&m),
    }
}

/// Development aid: count failures per operation and show some, shrunk.
fn cmd_explore(a: &Args) -> i32 {
    let prop = a.pos.get(1).cloned().unwrap_or_default();
    let only = a.pos.get(2).cloned();
    let n: u64 = a.opt.get("n").and_then(|s| s.parse().ok()).unwrap_or(200000);
    let seed: u64 =
        a.opt.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let max: usize = a.opt.get("max").and_then(|s| s.parse().ok()).unwrap_or(4);
    for (k, op) in props::all().into_iter().enumerate() {
        let known = known_findings(op.prop);
        let known = &known;
        if !(prop == "all" || op.prop == prop)
            || only.as_ref().is_some_and(|o| o != op.name)
        {
            continue;
        }
        let t0 = Instant::now();
        let grid = op.grid.map(|g| g()).unwrap_or_default();
        let total = AtomicU64::new(0);
        let nontriv = AtomicU64::new(0);
        let shown: Mutex<Vec<String>> = Mutex::new(vec![]);
        let nfail = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for th in 0..THREADS {
                let (op, grid, total, nontriv, shown, nfail) =
                    (&op, &grid, &total, &nontriv, &shown, &nfail);
                sc.spawn(move || {
                    mp::wide();
                    let one = |c: &Case| {
                        total.fetch_add(1, Relaxed);
                        match run_case(op, c) {
                            Out::Fine(nt) => {
                                nontriv.fetch_add(nt as u64, Relaxed);
                            }
                            Out::Bad(m)
                                if known
                                    .iter()
                                    .any(|k| k.covers(op.name, c, &m)) => {}
                            Out::Bad(m) => {
                                nfail.fetch_add(1, Relaxed);
                                let len = shown.lock().unwrap().len();
                                if len < max {
                                    let s = shrink(c, &|x| {
                                        matches!(run_case(op, x), Out::Bad(_))
                                    });
                                    let m2 = match run_case(op, &s) {
                                        Out::Bad(m2) => m2,
                                        _ => m.clone(),
                                    };
                                    shown.lock().unwrap().push(format!(
                                        "  {}\n    {m2}",
                                        s.show(op.name)
                                    ));
                                }
                            }
                            Out::Harness(m) => {
                                die(&format!("{m} on {}", c.show(op.name)))
                            }
                        }
                    };
                    for (j, c) in grid.iter().enumerate() {
                        if j % THREADS == th {
                            one(c);
                        }
                    }
                    for b in 0..(n / BLOCK) {
                        if b as usize % THREADS != th {
                            continue;
                        }
                        let mut r = Rng::new(seed_of(seed, k, op.name, b));
                        for _ in 0..BLOCK {
                            one(&(op.gen)(&mut r));
                        }
                    }
                });
            }
        });
        println!(
            "{} {}: {} cases, {} nontrivial, {} failures, {:.2} s",
            op.prop, op.name, total.load(Relaxed), nontriv.load(Relaxed),
            nfail.load(Relaxed), t0.elapsed().as_secs_f64()
        );
        for s in shown.into_inner().unwrap() {
            println!("{s}");
        }
    }
    0
}

/// Development aid: wall time per random case of each operation.
fn cmd_bench(a: &Args) -> i32 {
    let secs: f64 = a.opt.get("secs").and_then(|s| s.parse().ok()).unwrap_or(2.0);
    let prop = a.pos.get(1).cloned().unwrap_or_else(|| "all".into());
    let slow: u128 = a.opt.get("slow").and_then(|s| s.parse().ok()).unwrap_or(0);
    for op in props::all() {
        if prop != "all" && op.prop != prop {
            continue;
        }
        let t0 = Instant::now();
        let n = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for th in 0..THREADS {
                let (n, op, t0) = (&n, &op, &t0);
                sc.spawn(move || {
                    mp::wide();
                    let mut r = Rng::new(th as u64 + 77);
                    while t0.elapsed().as_secs_f64() < secs {
                        let t1 = Instant::now();
                        let c = (op.gen)(&mut r);
                        let t2 = Instant::now();
                        let _ = run_case(op, &c);
                        if slow > 0 && t1.elapsed().as_millis() >= slow {
                            println!("gen {} us, check {} us: {:.300}", (t2 - t1).as_micros(), t2.elapsed().as_micros(), c.show(op.name));
                        }
                        n.fetch_add(1, Relaxed);
                    }
                });
            }
        });
        let dt = t0.elapsed().as_secs_f64();
        println!("{} {} {} {:.3} us/case (8 threads)", op.prop, op.name, op.n, dt / n.load(Relaxed) as f64 * 1e6);
    }
    0
}

fn main() {
    install_hook();
    mp::wide();
    let a = parse_args();
    let rc = match a.pos.first().map(|s| s.as_str()) {
        Some("check") => cmd_check(&a),
        Some("replay") => cmd_replay(&a),
        Some("bench") => cmd_bench(&a),
        Some("explore") => cmd_explore(&a),
        Some("list") => {
            for o in props::all() {
                println!("{} {} {}", o.prop, o.name, o.n);
            }
            0
        }
        _ => die("usage: vh check|replay|explore|list ..."),
    };
    std::process::exit(rc)
}
