//! The property-based testing engine.
//!
//! Every case is decoded from a *tape* of integers. In generation mode the tape is produced by a
//! seeded PRNG; in replay / shrink mode it is given (missing entries read as 0, which generators
//! use for the simplest choice). All randomness of a case goes through the tape, so a tape is a
//! complete, replayable description of a case and shrinking works on tapes.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// SplitMix64 / xoshiro-like generator, fixed algorithm so that a seed means the same everywhere.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// Source of choices.
pub struct Src {
    tape: Vec<u64>,
    i: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(rng: Rng) -> Self {
        Src { tape: Vec::new(), i: 0, rng: Some(rng) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, i: 0, rng: None }
    }
    /// The consumed part of the tape
    pub fn consumed(&self) -> &[u64] {
        &self.tape[..self.i.min(self.tape.len())]
    }
    fn draw(&mut self, bound: u64, f: impl FnOnce(u64) -> u64) -> u64 {
        // bound == 0 means the full range
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                let v = f(x);
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.i).copied().unwrap_or(0);
                if bound == 0 {
                    v
                } else {
                    v.min(bound - 1)
                }
            }
        };
        self.i += 1;
        v
    }
    /// Uniform in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64, |x| ((x as u128 * n as u128) >> 64) as u64) as usize
    }
    /// Uniform in `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num / den`; the simplest choice is false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    /// Any 64 bit value
    pub fn u64(&mut self) -> u64 {
        self.draw(0, |x| x)
    }
    /// Weighted choice, index 0 is the simplest
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i;
            }
            x -= n;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// A length: mostly small, capped by max
    pub fn len(&mut self, max: usize) -> usize {
        let hi = match self.weighted(&[50, 30, 15, 5]) {
            0 => 2,
            1 => 5,
            2 => 12,
            _ => max,
        };
        self.below(hi.min(max) + 1)
    }
}

/// What a case reports about itself
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: Option<String>,
    pub want_sample: bool,
    /// extra evaluations done inside of this case (positions, ranges, steps ...)
    pub evals: u64,
    pub known: Vec<String>,
}
impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.label(l)
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn hash<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        // fixed-key hasher
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        h.write_u64(self.key);
        t.hash(&mut h);
        self.key = h.finish();
    }
}

pub type Outcome = Result<(), String>;
pub type PropFn = fn(&mut Src, &mut Cx) -> Outcome;

pub struct Sub {
    pub name: &'static str,
    pub f: PropFn,
    /// base number of cases
    pub quick: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: &'static [Sub],
    /// fixed, deterministic part (exhaustive enumerations and regression examples); returns the number of evaluations
    pub fixed: Option<fn() -> Result<u64, String>>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    inner: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

#[derive(Clone)]
pub struct Failure {
    pub sub: usize,
    pub case: u64,
    pub tape: Vec<u64>,
    pub msg: String,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
    }));
}

/// Run a closure, turning a panic into an error message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case(f: PropFn, src: &mut Src, cx: &mut Cx) -> Outcome {
    match guarded(|| f(src, cx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD134_2543_DE82_EF95) ^ b);
    r.next()
}

pub struct RunResult {
    pub failure: Option<Failure>,
    pub evaluations: u64,
    pub inner: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

const BATCH: u64 = 64;
/// The numbers of cases of the tiers, in multiples of each sub-property's base number
const QUICK: u64 = 20;
const THOROUGH: u64 = 1000;

/// The generator stream of a case
pub fn case_src(id: &str, seed: u64, sub: usize, case: u64) -> Src {
    let idh = id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    Src::random(Rng::new(mix(mix(seed, idh), mix(sub as u64, case))))
}

pub fn run(p: &Property, seed: u64, thorough: bool, scale: f64) -> RunResult {
    let journal = std::env::var_os("HARNESS_JOURNAL").map(std::path::PathBuf::from);
    let journal = journal.as_deref();
    // list of batches: (sub, first case, count), the sub-properties taking turns
    let mut batches = vec![];
    // for development: only the sub-properties of this name
    let only = std::env::var("HARNESS_SUB").ok();
    for (si, s) in p.subs.iter().enumerate() {
        if only.as_ref().map_or(false, |o| o != s.name) {
            continue;
        }
        let n = if thorough { s.quick * THOROUGH } else { s.quick * QUICK };
        let n = ((n as f64) * scale).ceil() as u64;
        let mut c = 0;
        while c < n {
            let k = BATCH.min(n / 100 + 1).min(n - c);
            batches.push((((c as u128) << 40) / n as u128, si, c, k));
            c += k;
        }
    }
    batches.sort();
    let batches: Vec<(usize, u64, u64)> = batches.into_iter().map(|b| (b.1, b.2, b.3)).collect();
    let deadline = Duration::from_secs(
        std::env::var("HARNESS_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 240 }),
    );
    let next = AtomicUsize::new(0);
    let stop_at = AtomicUsize::new(usize::MAX);
    let total = Mutex::new(Stats::default());
    let failure: Mutex<Option<(usize, Failure)>> = Mutex::new(None);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let done = AtomicBool::new(false);
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let at: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (next, stop_at, total, failure, batches, beats, at) = (&next, &stop_at, &total, &failure, &batches, &beats, &at);
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    loop {
                        let b = next.fetch_add(1, Ordering::Relaxed);
                        if b >= batches.len() || b > stop_at.load(Ordering::Relaxed) || t0.elapsed() > deadline {
                            break;
                        }
                        let (si, c0, k) = batches[b];
                        let sub = &p.subs[si];
                        for c in c0..c0 + k {
                            at[t].0.store(si as u64, Ordering::Relaxed);
                            at[t].1.store(c, Ordering::Relaxed);
                            beats[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            if let Some(j) = journal {
                                let _ = std::fs::write(j.join(t.to_string()), format!("{} {}", si, c));
                            }
                            let mut src = case_src(p.id, seed, si, c);
                            let mut cx = Cx { want_sample: c % 997 < 2, key: si as u64, ..Cx::default() };
                            let r = run_case(sub.f, &mut src, &mut cx);
                            st.evaluations += 1;
                            st.inner += cx.evals;
                            for l in &cx.labels {
                                *st.labels.entry(format!("{}: {}", sub.name, l)).or_default() += 1;
                            }
                            for k in cx.known.drain(..) {
                                *st.known.entry(k).or_default() += 1;
                            }
                            if cx.nontrivial {
                                if st.distinct.len() < 3_000_000 {
                                    st.distinct.insert(cx.key);
                                }
                                if let Some(s) = cx.sample {
                                    if st.samples.len() < 4 {
                                        let mut s = s;
                                        if s.len() > 1500 {
                                            let mut cut = 1500;
                                            while !s.is_char_boundary(cut) {
                                                cut -= 1;
                                            }
                                            s.truncate(cut);
                                            s.push_str("...");
                                        }
                                        st.samples.push(format!("{}#{}: {}", sub.name, c, s));
                                    }
                                }
                            }
                            if let Err(msg) = r {
                                let f = Failure { sub: si, case: c, tape: src.consumed().to_vec(), msg };
                                let mut g = failure.lock().unwrap();
                                if g.as_ref().map_or(true, |(ob, _)| b < *ob) {
                                    *g = Some((b, f));
                                    stop_at.fetch_min(b, Ordering::Relaxed);
                                }
                                break;
                            }
                        }
                    }
                    beats[t].store(u64::MAX, Ordering::Relaxed);
                    let mut g = total.lock().unwrap();
                    g.evaluations += st.evaluations;
                    g.inner += st.inner;
                    g.distinct.extend(st.distinct);
                    for (k, v) in st.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in st.known {
                        *g.known.entry(k).or_default() += v;
                    }
                    g.samples.extend(st.samples);
                })
                .unwrap();
            hs.push(h);
        }
        // watchdog: the parent process then finds out whether the case really does not end
        let (beats, done, at, failure) = (&beats, &done, &at, &failure);
        let patience: u64 = std::env::var("HARNESS_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(30_000);
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                let late: Vec<String> = beats
                    .iter()
                    .zip(at)
                    .filter(|(b, _)| {
                        let v = b.load(Ordering::Relaxed);
                        v != 0 && v != u64::MAX && now > v + patience
                    })
                    .map(|(_, a)| format!("{} {}\n", a.0.load(Ordering::Relaxed), a.1.load(Ordering::Relaxed)))
                    .collect();
                if !late.is_empty() {
                    eprintln!("watchdog: a single case runs for more than {} s", patience / 1000);
                    if let Some(d) = std::env::var_os("HARNESS_JDIR") {
                        let d = std::path::PathBuf::from(d);
                        if let Some((_, f)) = &*failure.lock().unwrap() {
                            write_found(f);
                        }
                        let _ = std::fs::write(d.join("hang"), late.concat());
                    }
                    std::process::exit(HANG);
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let st = total.into_inner().unwrap();
    let mut samples = st.samples;
    samples.sort();
    samples.truncate(6);
    RunResult {
        failure: failure.into_inner().unwrap().map(|(_, f)| f),
        evaluations: st.evaluations,
        inner: st.inner,
        distinct: st.distinct.len() as u64,
        labels: st.labels,
        samples,
        known: st.known,
    }
}

/// Exit code of a search that met a case which does not end in time
pub const HANG: i32 = 97;
/// Exit code of a search whose fixed part does not end in time
pub const HANG_FIXED: i32 = 98;

/// Keep a failing case on disk, in case that minimising it crashes or hangs
pub fn write_found(f: &Failure) {
    if let Some(d) = std::env::var_os("HARNESS_JDIR") {
        let v = serde_json::json!({"sub": f.sub, "case": f.case, "tape": f.tape, "message": f.msg});
        let _ = std::fs::write(std::path::Path::new(&d).join("found"), v.to_string());
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
/// Bound the address space, so that an endless allocation becomes an abort of this process
pub fn limit_memory(bytes: u64) {
    unsafe { setrlimit(9, &[bytes, bytes]) };
}
/// Bound the processor time, so that an endless loop becomes SIGXCPU
pub fn limit_cpu(secs: u64) {
    unsafe { setrlimit(0, &[secs, secs + 5]) };
}

/// Re-run one tape
pub fn replay(f: PropFn, tape: &[u64]) -> (Outcome, Option<String>) {
    let mut src = Src::replay(tape.to_vec());
    let mut cx = Cx { want_sample: true, ..Cx::default() };
    let r = run_case(f, &mut src, &mut cx);
    (r, cx.sample)
}

/// Minimise a failing tape
pub fn shrink(f: PropFn, tape: &[u64], budget: Duration, progress: &Mutex<Vec<u64>>) -> Vec<u64> {
    let start = Instant::now();
    let tries = std::cell::Cell::new(0usize);
    let fails = |t: &[u64]| -> Option<Vec<u64>> {
        tries.set(tries.get() + 1);
        let mut src = Src::replay(t.to_vec());
        let mut cx = Cx::default();
        match run_case(f, &mut src, &mut cx) {
            Err(_) => {
                let n = src.consumed().len().min(t.len());
                *progress.lock().unwrap() = t[..n].to_vec();
                Some(t[..n].to_vec())
            }
            Ok(()) => None,
        }
    };
    let mut best = match fails(tape) {
        Some(t) => t,
        None => return tape.to_vec(),
    };
    let over = || start.elapsed() > budget || tries.get() > 20_000;
    loop {
        let before = best.clone();
        // delete chunks
        for size in [256usize, 64, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                if over() {
                    return best;
                }
                let lo = i.saturating_sub(size);
                let mut t = best[..lo].to_vec();
                t.extend_from_slice(&best[i.min(best.len())..]);
                if let Some(b) = fails(&t) {
                    if b.len() < best.len() {
                        best = b;
                        i = lo.min(best.len());
                        continue;
                    }
                }
                i = if size > 4 { lo } else { i - 1 };
                i = i.min(best.len());
            }
        }
        // zero chunks
        for size in [64usize, 16, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if over() {
                    return best;
                }
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..hi].iter_mut().for_each(|x| *x = 0);
                    if let Some(b) = fails(&t) {
                        best = b;
                    }
                }
                i += size;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            if over() {
                return best;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match fails(&t) {
                    Some(b) if b.len() > i => {
                        best = b;
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
                if over() {
                    return best;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
