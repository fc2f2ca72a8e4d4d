//! A small property-testing engine.
//!
//! A case is a function of a tape of bounded draws.  In generation mode the
//! draws come from a PRNG seeded from (VERIF_SEED, property, case index) and are
//! recorded; in replay mode they come from a recorded tape.  Shrinking edits the
//! tape (truncate, delete, zero, lower), so every generator shrinks for free and
//! the shrunk tape is the replay file.  Cases run in worker processes, so a
//! crash (stack overflow, abort, allocation budget) is an observed outcome and
//! not the end of the run.

use serde_json::{json, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

// ---------------------------------------------------------------- allocator

/// Counts what a case allocates; exceeding the case's budget ends the worker
/// with exit status 77.  The budget is a count of bytes and of calls, so the
/// verdict does not depend on the speed of the machine.
pub struct Meter;
static BYTES: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static MAX_BYTES: AtomicU64 = AtomicU64::new(u64::MAX);
static MAX_CALLS: AtomicU64 = AtomicU64::new(u64::MAX);
/// What is held now.  Holding more than `MAX_LIVE` ends a worker in any case:
/// nothing a case does needs a hundredth of it.
static LIVE: AtomicU64 = AtomicU64::new(0);
const MAX_LIVE: u64 = 2 << 30;

pub const EXIT_BUDGET: i32 = 77;
pub const EXIT_WATCHDOG: i32 = 78;
pub const EXIT_RUNAWAY: i32 = 79;

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n, l.size());
        System.realloc(p, l, n)
    }
}
#[inline]
fn charge(n: usize, old: usize) {
    let live = LIVE.fetch_add(n as u64, Relaxed) + n as u64;
    LIVE.fetch_sub(old as u64, Relaxed);
    let b = BYTES.fetch_add(n as u64, Relaxed) + n as u64;
    let c = CALLS.fetch_add(1, Relaxed) + 1;
    if b > MAX_BYTES.load(Relaxed) || c > MAX_CALLS.load(Relaxed) || live > MAX_LIVE {
        unsafe { libc::_exit(EXIT_BUDGET) }
    }
}
/// Allow the code that follows to allocate at most `bytes` in `calls` calls.
pub fn budget(bytes: u64, calls: u64) {
    BYTES.store(0, Relaxed);
    CALLS.store(0, Relaxed);
    MAX_BYTES.store(bytes, Relaxed);
    MAX_CALLS.store(calls, Relaxed);
}
pub fn no_budget() {
    MAX_BYTES.store(u64::MAX, Relaxed);
    MAX_CALLS.store(u64::MAX, Relaxed);
}
pub fn allocated() -> (u64, u64) {
    (BYTES.load(Relaxed), CALLS.load(Relaxed))
}

#[global_allocator]
static GLOBAL: Meter = Meter;

// ---------------------------------------------------------------- draws

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash64(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

pub struct Src {
    pub tape: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    rng: u64,
    /// index of the case in the run
    index: u64,
}
impl Src {
    pub fn from_seed(seed: u64, index: u64) -> Self {
        Src { tape: vec![], replay: None, pos: 0, rng: seed, index }
    }
    pub fn from_tape(tape: &[u64]) -> Self {
        Src { tape: vec![], replay: Some(tape.to_vec()), pos: 0, rng: 0, index: u64::MAX }
    }
    /// The first `n` cases of a run get 1..=n, the others 0.
    pub fn lead(&mut self, n: u64) -> u64 {
        if self.replay.is_some() {
            return self.below(n + 1);
        }
        let v = if self.index < n { self.index + 1 } else { 0 };
        self.pos += 1;
        self.tape.push(v);
        if LOG_DRAWS.load(Relaxed) {
            log_draw(v);
        }
        v
    }
    /// A draw in 0..n.  Everything random goes through here.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0) % n,
            None => {
                let r = splitmix(&mut self.rng);
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.tape.push(v);
        if LOG_DRAWS.load(Relaxed) {
            log_draw(v);
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    pub fn u128(&mut self) -> u128 {
        let hi = self.u64();
        (hi as u128) << 64 | self.u64() as u128
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn i128_in(&mut self, lo: i128, hi: i128) -> i128 {
        let span = (hi as u128).wrapping_sub(lo as u128);
        if span == 0 {
            return lo;
        }
        let off = if span < (1 << 63) {
            self.below(span as u64 + 1) as u128
        } else if span == u128::MAX {
            self.u128()
        } else {
            self.u128() % (span + 1)
        };
        (lo as u128).wrapping_add(off) as i128
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- cases

#[derive(Debug, Clone)]
pub struct Fail {
    /// Exact signature: identifies the failing input class in the known-findings file.
    pub key: String,
    pub detail: String,
}
impl Fail {
    pub fn new(key: impl Into<String>, detail: impl Into<String>) -> Self {
        Fail { key: key.into(), detail: detail.into() }
    }
}
#[macro_export]
macro_rules! fail {
    ($key:expr, $($a:tt)*) => { return Err($crate::engine::Fail::new($key, format!($($a)*))) };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    nontrivial: bool,
    hash: u64,
    sample: Option<String>,
    want_sample: bool,
    pub extra_evals: u64,
}
impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }
    /// This case is non-trivial by the property's rule; `ident` identifies it.
    pub fn nontrivial(&mut self, ident: &[u8]) {
        self.nontrivial = true;
        self.hash = hash64(ident);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), Fail>;

pub struct Property {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: CaseFn,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run `f`, turning a panic into an error text (message at location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_location(&l) {
                eprintln!("harness error: panic in the harness itself: {} at {}", m, l);
                std::process::exit(2);
            }
            Err(format!("panicked: {} at {}", m, l))
        }
    }
}
fn is_harness_location(l: &str) -> bool {
    l.starts_with("src/") || l.contains("/verif/") && l.contains("harness/src") || l.contains("harness/src/")
}

enum Outcome {
    Pass,
    Fail(Fail),
}

fn run_case(p: &Property, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let r = guarded(|| (p.case)(src, ctx));
    no_budget();
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(f)) => Outcome::Fail(f),
        Err(m) => Outcome::Fail(Fail::new("panic", m)),
    }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut x = seed ^ hash64(id.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ i.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut y)
}

// ---------------------------------------------------------------- shrinking

fn shrink(tape: Vec<u64>, max_evals: usize, seconds: u64, mut still_fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = tape;
    let mut evals = 0;
    let start = Instant::now();
    let mut try_ = |cand: Vec<u64>, best: &mut Vec<u64>, evals: &mut usize| -> bool {
        if *evals >= max_evals || cand == *best {
            return false;
        }
        *evals += 1;
        STEP.fetch_add(1, Relaxed);
        if start.elapsed().as_secs() > seconds {
            *evals = max_evals;
        }
        if let Some(t) = still_fails(&cand) {
            // The tape actually drawn is never longer than useful.
            let simpler = t.len() < best.len()
                || (t.len() == best.len() && t.iter().zip(best.iter()).find(|(a, b)| a != b).map(|(a, b)| a < b).unwrap_or(false));
            if simpler {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // truncation (exhausted tape draws zero)
        let mut cut = best.len() / 2;
        while cut > 0 {
            if best.len() > cut {
                let c = best[..best.len() - cut].to_vec();
                if try_(c, &mut best, &mut evals) {
                    continue;
                }
            }
            cut /= 2;
        }
        // deletion of blocks
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_(c, &mut best, &mut evals) {
                    i += 1;
                }
                if evals >= max_evals {
                    return best;
                }
            }
        }
        // zeroing of blocks, lowering of values
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    try_(c, &mut best, &mut evals);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut c = best.clone();
                c[i] = 0;
                if !try_(c, &mut best, &mut evals) {
                    // binary search for the smallest failing value
                    let mut hi = v;
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_(c, &mut best, &mut evals) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if evals >= max_evals {
                            return best;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || evals >= max_evals {
            return best;
        }
    }
}

// ---------------------------------------------------------------- driver

#[derive(Clone)]
pub struct Opts {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub out: PathBuf,
    pub cases: Option<u64>,
    pub workers: u64,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

/// Entry point of a check binary.
pub fn main(props: &[Property]) {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let id = arg(&args, "--property").unwrap_or_else(|| {
        eprintln!("usage: --property ID [--tier quick|thorough] [--seed N] [--replay FILE]");
        std::process::exit(2)
    });
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("this binary does not check {}", id);
        std::process::exit(2)
    });
    let tier = arg(&args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed = arg(&args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let opts = Opts {
        property: id.clone(),
        tier,
        seed,
        out: PathBuf::from(arg(&args, "--out").unwrap_or_else(|| "/verif".into())),
        cases: arg(&args, "--cases").and_then(|s| s.parse().ok()),
        workers: arg(&args, "--workers")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16)),
    };
    if let Some(f) = arg(&args, "--single") {
        std::process::exit(single(p, Path::new(&f)));
    }
    if let Some(f) = arg(&args, "--replay") {
        std::process::exit(replay(p, Path::new(&f)));
    }
    if let Some(w) = arg(&args, "--worker") {
        let w: u64 = w.parse().unwrap();
        let dir = PathBuf::from(arg(&args, "--dir").unwrap());
        let q = p_static(p);
        on_big_stack(move || worker(q, &opts, w, &dir));
        return;
    }
    std::process::exit(parent(p, &opts, &args));
}

fn p_static(p: &Property) -> Property {
    Property { id: p.id, quick: p.quick, thorough: p.thorough, rule: p.rule, case: p.case }
}

/// Cases run on a thread with the stack size a main thread has by default.
fn on_big_stack(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().ok();
}

fn total_cases(p: &Property, o: &Opts) -> u64 {
    o.cases.unwrap_or(if o.tier == "thorough" { p.thorough } else { p.quick })
}

fn known_keys(o: &Opts) -> Vec<(String, String)> {
    let path = o.out.join("known_findings.json");
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(&path) {
        let j: J = serde_json::from_str(&s).expect("known_findings.json");
        for f in j["findings"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
            if f["property"] == o.property.as_str() {
                v.push((f["key"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()));
            }
        }
    }
    v
}

/// A case that uses 40 s of processor time (they take milliseconds) does not
/// end: a verdict.  One that only waits is an error of the run.
fn watchdog(limit_s: u64) {
    fn cpu() -> f64 {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
    std::thread::spawn(move || {
        let mut seen = (0, Instant::now(), 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = STEP.load(Relaxed);
            if c != seen.0 {
                seen = (c, Instant::now(), cpu());
            } else if cpu() - seen.2 > 40.0 {
                unsafe { libc::_exit(EXIT_RUNAWAY) }
            } else if seen.1.elapsed().as_secs() > limit_s {
                unsafe { libc::_exit(EXIT_WATCHDOG) }
            }
        }
    });
}
/// Grows whenever a case begins.
static STEP: AtomicU64 = AtomicU64::new(1);

fn worker(p: Property, o: &Opts, w: u64, dir: &Path) {
    use std::os::unix::fs::FileExt;
    let progress = std::fs::File::create(dir.join(format!("progress.{}", w))).unwrap();
    let known = known_keys(o);
    let total = total_cases(&p, o);
    watchdog(400);
    let quick = o.tier != "thorough";
    let mut first_failure: Option<Instant> = None;
    let mut evals = 0u64;
    let mut extra = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: Vec<J> = vec![];
    let mut fail_keys: HashSet<String> = HashSet::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = w;
    while i < total {
        STEP.fetch_add(1, Relaxed);
        progress.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let mut src = Src::from_seed(case_seed(o.seed, p.id, i), i);
        let mut ctx = Ctx { want_sample: samples.len() < 4, ..Default::default() };
        let out = run_case(&p, &mut src, &mut ctx);
        evals += 1;
        extra += ctx.extra_evals;
        for (k, n) in &ctx.labels {
            *labels.entry(k.clone()).or_insert(0) += n;
        }
        if ctx.nontrivial {
            nontrivial += 1;
            hashes.insert(ctx.hash);
            if let Some(s) = ctx.sample.take() {
                if !s.is_empty() {
                    samples.push(s);
                }
            }
        }
        if let Outcome::Fail(f) = out {
            if known.iter().any(|(k, _)| *k == f.key) {
                *known_hits.entry(f.key.clone()).or_insert(0) += 1;
            } else if fail_keys.len() < 3 && fail_keys.insert(f.key.clone()) {
                let key = f.key.clone();
                let t = shrink(src.tape.clone(), 3000, if quick { 40 } else { 400 }, |t| {
                    let mut s = Src::from_tape(t);
                    let mut c = Ctx::default();
                    match run_case(&p, &mut s, &mut c) {
                        Outcome::Fail(f2) if f2.key == key => Some(s.tape),
                        _ => None,
                    }
                });
                let mut s = Src::from_tape(&t);
                let detail = match run_case(&p, &mut s, &mut Ctx::default()) {
                    Outcome::Fail(f2) => f2.detail,
                    _ => f.detail.clone(),
                };
                fails.push(json!({"key": key, "detail": detail, "first_detail": f.detail, "case": i, "tape": t}));
            }
            if fail_keys.len() >= 3 {
                break;
            }
            // One is enough to know; look for others a little longer.
            if quick && first_failure.get_or_insert_with(Instant::now).elapsed().as_secs() > 60 {
                break;
            }
        }
        i += o.workers;
    }
    let mut hv: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hv.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("hashes.{}", w)), hv).unwrap();
    let j = json!({"evals": evals, "extra": extra, "nontrivial": nontrivial, "labels": labels, "samples": samples,
                   "fails": fails, "known": known_hits});
    std::fs::write(dir.join(format!("result.{}", w)), j.to_string()).unwrap();
}

fn tape_of(j: &J) -> Vec<u64> {
    j["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default()
}

/// Run one tape; exit 0 pass, 1 fail.  Used by the parent for crashing cases.
fn single(p: &Property, f: &Path) -> i32 {
    let j: J = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let q = p_static(p);
    LOG_DRAWS.store(std::env::var("VERIF_TAPE_LOG").is_ok(), Relaxed);
    let code = std::sync::Arc::new(std::sync::atomic::AtomicI32::new(0));
    let c2 = code.clone();
    let out = f.with_extension("out");
    watchdog(120);
    on_big_stack(move || {
        let mut s = match j["seed"].as_u64() {
            Some(seed) => Src::from_seed(seed, j["index"].as_u64().unwrap_or(u64::MAX)),
            None => Src::from_tape(&tape_of(&j)),
        };
        let mut ctx = Ctx { want_sample: true, ..Default::default() };
        match run_case(&q, &mut s, &mut ctx) {
            Outcome::Pass => {}
            Outcome::Fail(f) => {
                c2.store(1, Relaxed);
                let _ = std::fs::write(&out, json!({"key": f.key, "detail": f.detail, "tape": s.tape}).to_string());
            }
        }
    });
    code.load(Relaxed)
}

fn replay(p: &Property, f: &Path) -> i32 {
    let dir = scratch();
    let mut j: J = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay JSON");
    if j["tape"].as_array().is_none() {
        j = json!({"tape": []});
    }
    let r = run_single(p, &j, &dir);
    let code = match r {
        SingleOut::Pass => {
            println!("replay: the property holds on this case");
            0
        }
        SingleOut::Fail(k, d) => {
            println!("replay: key={} {}", k, d);
            println!("VIOLATION property={} replay={}", p.id, f.display());
            1
        }
        SingleOut::Error(e) => {
            println!("replay: error: {}", e);
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

enum SingleOut {
    Pass,
    Fail(String, String),
    Error(String),
}

fn run_single(p: &Property, j: &J, dir: &Path) -> SingleOut {
    let f = dir.join("single.json");
    let o = f.with_extension("out");
    let _ = std::fs::remove_file(&o);
    std::fs::write(&f, j.to_string()).unwrap();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--property", p.id, "--single"])
        .arg(&f)
        .env("VERIF_SCRATCH", dir)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap();
    match (st.code(), st.signal()) {
        (Some(0), _) => SingleOut::Pass,
        (Some(1), _) => {
            let j: J = std::fs::read_to_string(&o).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(J::Null);
            SingleOut::Fail(j["key"].as_str().unwrap_or("?").into(), j["detail"].as_str().unwrap_or("?").into())
        }
        (c, s) => match crash_fail(c, s) {
            Ok(f) => SingleOut::Fail(f.key, f.detail),
            Err(e) => SingleOut::Error(e),
        },
    }
}

fn crash_fail(code: Option<i32>, sig: Option<i32>) -> Result<Fail, String> {
    match (code, sig) {
        (Some(EXIT_BUDGET), _) => Ok(Fail::new("runaway", "allocates without bound: the allocation budget of the case was exceeded")),
        (_, Some(s)) if s == libc::SIGABRT || s == libc::SIGSEGV || s == libc::SIGBUS || s == libc::SIGILL => {
            Ok(Fail::new("crash", format!("the process died of signal {} (stack overflow or abort)", s)))
        }
        (Some(EXIT_RUNAWAY), _) => Ok(Fail::new("runaway", "does not end: a single case used 40 s of processor time")),
        (Some(EXIT_WATCHDOG), _) => Err("a case did not end within the watchdog limit".into()),
        (c, s) => Err(format!("worker ended with code {:?} signal {:?}", c, s)),
    }
}

pub fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("verif-{}-{}", std::process::id(), hash64(format!("{:?}", Instant::now()).as_bytes())));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn parent(p: &Property, o: &Opts, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..o.workers {
        let mut c = std::process::Command::new(&exe);
        c.args(&args[1..])
            .args(["--worker", &w.to_string(), "--workers", &o.workers.to_string(), "--dir"])
            .arg(&dir)
            .args(["--seed", &o.seed.to_string(), "--tier", &o.tier])
            .env("VERIF_SCRATCH", &dir)
            .stdout(std::process::Stdio::null());
        if std::env::var("VERIF_DEBUG").is_err() {
            c.stderr(std::process::Stdio::piped());
        }
        kids.push(c.spawn().unwrap());
    }
    let mut evals = 0;
    let mut extra = 0;
    let mut nontrivial = 0;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: Vec<(Fail, Vec<u64>)> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    // Drain stderr of every worker while waiting.
    let mut waits = vec![];
    for (w, k) in kids.into_iter().enumerate() {
        waits.push((w, std::thread::spawn(move || k.wait_with_output().unwrap())));
    }
    for (w, h) in waits {
        let outp = h.join().unwrap();
        let st = outp.status;
        let res = std::fs::read_to_string(dir.join(format!("result.{}", w))).ok();
        match res {
            Some(s) if st.success() => {
                let j: J = serde_json::from_str(&s).unwrap();
                evals += j["evals"].as_u64().unwrap();
                extra += j["extra"].as_u64().unwrap();
                nontrivial += j["nontrivial"].as_u64().unwrap();
                for (k, n) in j["labels"].as_object().unwrap() {
                    *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                }
                for s in j["samples"].as_array().unwrap() {
                    if samples.len() < 12 && (w as u64) * 2 < 200 {
                        samples.push(s.as_str().unwrap().to_string());
                    }
                }
                for (k, n) in j["known"].as_object().unwrap() {
                    *known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                }
                for f in j["fails"].as_array().unwrap() {
                    let fl = Fail::new(f["key"].as_str().unwrap(), f["detail"].as_str().unwrap());
                    if !fails.iter().any(|(x, _)| x.key == fl.key) {
                        fails.push((fl, tape_of(f)));
                    }
                }
                if let Ok(b) = std::fs::read(dir.join(format!("hashes.{}", w))) {
                    for c in b.chunks_exact(8) {
                        hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                }
            }
            _ => {
                // The worker died inside a case: confirm it alone, then shrink.
                let idx = std::fs::read(dir.join(format!("progress.{}", w)))
                    .ok()
                    .filter(|b| b.len() == 8)
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()));
                let first = crash_fail(st.code(), st.signal());
                let stderr = String::from_utf8_lossy(&outp.stderr).to_string();
                match (first, idx) {
                    (Ok(f), Some(_)) if fails.iter().any(|(x, _)| x.key == f.key) => {}
                    (Ok(f), Some(i)) => {
                        let seed = case_seed(o.seed, p.id, i);
                        match run_single(p, &json!({"seed": seed, "index": i}), &dir) {
                            SingleOut::Fail(key, detail) => {
                                if fails.iter().any(|(x, _)| x.key == key) {
                                    continue;
                                }
                                // Recover the tape by drawing with the same seed until the crash.
                                let tape = recover_tape(p, seed, i, &dir);
                                let t = match tape {
                                    Some(t) => shrink(t, 250, 90, |t| match run_single(p, &json!({"tape": t}), &dir) {
                                        SingleOut::Fail(k, _) if k == key => Some(t.to_vec()),
                                        _ => None,
                                    }),
                                    None => vec![],
                                };
                                fails.push((Fail::new(key, detail), t));
                            }
                            SingleOut::Pass => errors.push(format!("worker {} died ({}) in case {} but the case passes alone", w, f.detail, i)),
                            SingleOut::Error(e) => errors.push(format!("case {}: {}", i, e)),
                        }
                    }
                    (Err(e), i) => errors.push(format!("worker {} case {:?}: {} {}", w, i, e, stderr)),
                    (Ok(f), None) => errors.push(format!("worker {} died before its first case: {}", w, f.detail)),
                }
            }
        }
    }
    let mut code = 0;
    let known_list = known_keys(o);
    for (k, what) in &known_list {
        if known.contains_key(k) {
            println!("KNOWN-FINDING: property={} {}", p.id, what);
        } else {
            println!("note: listed finding not reproduced in this run: {} ({})", k, what);
        }
    }
    let mut nviol = 0;
    for (f, tape) in &fails {
        if known_list.iter().any(|(k, _)| *k == f.key) {
            continue;
        }
        nviol += 1;
        let rd = o.out.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let name = rd.join(format!("{}-{:08x}.json", p.id, hash64(format!("{}{:?}", f.key, tape).as_bytes()) as u32));
        let body = json!({"property": p.id, "key": f.key, "detail": f.detail, "tape": tape, "seed": o.seed});
        let _ = std::fs::write(&name, serde_json::to_string_pretty(&body).unwrap());
        let d: String = f.detail.chars().take(3000).collect();
        println!("{}: {}: {}", p.id, f.key, d);
        println!("VIOLATION property={} replay={}", p.id, name.display());
        code = 1;
    }
    if code == 0 && !errors.is_empty() {
        code = 2;
    }
    for e in &errors {
        println!("error: {}", e);
    }
    let ev = json!({
        "property": p.id, "tier": if o.tier == "thorough" {"thorough"} else {"quick"}, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals + extra,
            "cases": evals,
            "nontrivial_cases": nontrivial,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "classes": labels,
            "known_findings_hit": known,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let ed = o.out.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases ({} evaluations), {} distinct non-trivial, {} violation(s), {} error(s), {:.1}s",
        p.id,
        evals,
        evals + extra,
        hashes.len(),
        nviol,
        errors.len(),
        t0.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// A crashing case cannot report its tape; its draws are logged to a file instead.
fn recover_tape(p: &Property, seed: u64, index: u64, dir: &Path) -> Option<Vec<u64>> {
    let log = dir.join("tape.log");
    let _ = std::fs::remove_file(&log);
    let f = dir.join("single.json");
    std::fs::write(&f, json!({"seed": seed, "index": index}).to_string()).unwrap();
    let _ = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--property", p.id, "--single"])
        .arg(&f)
        .env("VERIF_TAPE_LOG", &log)
        .env("VERIF_SCRATCH", dir)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let b = std::fs::read(&log).ok()?;
    Some(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}


static LOG_DRAWS: AtomicBool = AtomicBool::new(false);
fn log_draw(v: u64) {
    use std::sync::{Mutex, OnceLock};
    static F: OnceLock<Mutex<std::fs::File>> = OnceLock::new();
    let f = F.get_or_init(|| Mutex::new(std::fs::File::create(std::env::var("VERIF_TAPE_LOG").unwrap()).unwrap()));
    let _ = f.lock().unwrap().write_all(&v.to_le_bytes());
}
