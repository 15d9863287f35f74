//! Shared monitor kit: seeded randomness, case scheduling over threads, event
//! counting, violation records, and a per-thread "current case" journal that lets
//! the driver name the case a crashed process was running.
use serde_json::{json, Map, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use serde_json;

pub mod alloc;

// ── randomness ───────────────────────────────────────────────────────────────

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0xA076_1D64_78BD_642F)
    }
    pub fn derive(seed: u64, label: &str, idx: u64) -> Self {
        let mut h = Fnv::default();
        seed.hash(&mut h);
        label.hash(&mut h);
        idx.hash(&mut h);
        let mut r = Rng::new(h.finish());
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    pub fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    pub fn i128(&mut self) -> i128 {
        ((self.u64() as u128) << 64 | self.u64() as u128) as i128
    }
    /// Uniform in `[0, n)`; `n` must be positive.
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in `[lo, hi]`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.u64() as u128 * span) >> 64) as i128) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// A 64-bit integer biased to the edges where representations change.
    pub fn edgy_i64(&mut self) -> i64 {
        match self.below(10) {
            0 => self.range(-3, 3),
            1 => self.range(-200, 200),
            2 => i64::MAX - self.range(0, 3),
            3 => i64::MIN + self.range(0, 3),
            4 => {
                let k = self.below(63);
                let base = 1i64 << k;
                base.wrapping_add(self.range(-2, 2))
            }
            5 => {
                let k = self.below(63);
                (1i64 << k).wrapping_neg().wrapping_add(self.range(-2, 2))
            }
            6 => self.range(i32::MIN as i64 - 3, i32::MAX as i64 + 3),
            7 => {
                let s = self.below(64) as u32;
                self.i64() >> s
            }
            8 => self.range(-(1 << 20), 1 << 20),
            _ => self.i64(),
        }
    }
}

#[derive(Default, Clone)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ 0xcbf2_9ce4_8422_2325 ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

// ── environment ──────────────────────────────────────────────────────────────

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
/// Pick a size by tier.
pub fn scale(quick: u64, thorough_n: u64) -> u64 {
    let f: f64 = std::env::var("VK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = if thorough() { thorough_n } else { quick };
    ((n as f64 * f) as u64).max(1)
}
pub fn threads() -> usize {
    std::env::var("VK_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

// ── panic capture ────────────────────────────────────────────────────────────

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}

#[derive(Debug, Clone)]
pub struct PanicInfo {
    pub message: String,
    pub location: String,
}
impl PanicInfo {
    /// Raised by the code under test (not by the monitor's own source).
    pub fn from_sut(&self) -> bool {
        !(self.location.starts_with("src/") || self.location.contains("/verif/"))
    }
    /// A signature stable across line shifts: file and message with digits folded.
    pub fn sig(&self) -> String {
        let file = self.location.split(':').next().unwrap_or("?");
        let file = file.rsplit("/crates/").next().unwrap_or(file);
        format!("panic:{}:{}", file, fold_digits(&self.message))
    }
}
pub fn fold_digits(s: &str) -> String {
    let mut out = String::new();
    let mut prev = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() {
            if !prev {
                out.push('#');
            }
            prev = true;
        } else {
            out.push(if c == '\n' { ' ' } else { c });
            prev = false;
        }
    }
    out
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VK_PANICS").is_ok() {
            eprintln!("[panic] {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run `f`, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (message, location) =
                LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            Err(PanicInfo { message, location })
        }
    }
}

// ── report ───────────────────────────────────────────────────────────────────

#[derive(Clone)]
struct Violation {
    sig: String,
    detail: String,
    label: String,
    idx: u64,
    data: Value,
}

#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    samples: Vec<Value>,
    sample_labels: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    violation_total: u64,
    sig_counts: BTreeMap<String, u64>,
    inconclusive: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
    rules: Vec<String>,
    groups: BTreeMap<String, (u64, u64)>,
}

pub struct Report {
    inner: Mutex<Inner>,
    start: Instant,
    only: Option<(String, u64)>,
    cur: Option<std::fs::File>,
    budget: Duration,
}

static SLOT: AtomicU64 = AtomicU64::new(0);
thread_local! { static MY_SLOT: Cell<u64> = const { Cell::new(u64::MAX) }; }

impl Report {
    pub fn new() -> Self {
        install_hook();
        let only = std::env::var("VK_ONLY").ok().and_then(|s| {
            let (l, i) = s.rsplit_once('#')?;
            Some((l.to_string(), i.parse().ok()?))
        });
        let cur = std::env::var("VK_CUR").ok().and_then(|p| {
            std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).ok()
        });
        let secs: f64 = std::env::var("VK_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() {
            1500.0
        } else {
            240.0
        });
        Report { inner: Mutex::new(Inner::default()), start: Instant::now(), only, cur, budget: Duration::from_secs_f64(secs) }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    /// Describe how cases of this run are made and what makes one non-trivial.
    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rules.push(s.to_string());
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(k.to_string()).or_default() += n;
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.inner.lock().unwrap().counters.get(k).copied().unwrap_or(0)
    }
    pub fn harness_error(&self, s: String) {
        self.inner.lock().unwrap().harness_errors.push(s);
    }
    /// The monitor must have observed at least `n` of counter `k`, else the run
    /// decided nothing (an error of the check, not a verdict).
    pub fn require(&self, k: &str, n: u64) {
        if self.only.is_some() {
            return;
        }
        let mut g = self.inner.lock().unwrap();
        let got = g.counters.get(k).copied().unwrap_or(0);
        if got < n {
            g.harness_errors.push(format!("vacuous: observed {got} of '{k}', need {n}"));
        }
    }

    fn mark(&self, label: &str, idx: u64) {
        if let Some(f) = &self.cur {
            let slot = MY_SLOT.with(|s| {
                if s.get() == u64::MAX {
                    s.set(SLOT.fetch_add(1, Ordering::Relaxed));
                }
                s.get()
            });
            let mut buf = [b' '; 128];
            let text = format!("{label}#{idx}");
            let b = text.as_bytes();
            let n = b.len().min(127);
            buf[..n].copy_from_slice(&b[..n]);
            buf[127] = b'\n';
            let _ = f.write_at(&buf, slot * 128);
        }
    }

    /// Run `n` independent cases on the worker threads. Each case has its own
    /// generator derived from (seed, label, index), so any case can be re-run alone.
    pub fn cases<F>(&self, label: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        self.cases_with(label, n, threads(), 300.0, f)
    }

    pub fn cases_with<F>(&self, label: &str, n: u64, nthreads: usize, hang_secs: f64, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        if let Some((l, i)) = &self.only {
            if l == label {
                std::thread::scope(|s| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, || self.one(label, *i, &f))
                        .unwrap();
                });
            }
            return;
        }
        if std::env::var("VK_GROUP").map_or(false, |g| g != label) {
            return;
        }
        let next = AtomicU64::new(0);
        let busy: Vec<(AtomicU64, AtomicU64)> =
            (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for t in 0..nthreads.min(n.max(1) as usize) {
                let (next, busy, f) = (&next, &busy, &f);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || loop {
                            if self.out_of_time() {
                                let mut g = self.inner.lock().unwrap();
                                *g.counters.entry(format!("stopped_by_time_cap:{label}")).or_default() += 1;
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            busy[t].1.store((self.elapsed() * 1000.0) as u64, Ordering::Relaxed);
                            busy[t].0.store(i, Ordering::Relaxed);
                            self.one(label, i, f);
                            busy[t].0.store(u64::MAX, Ordering::Relaxed);
                        })
                        .unwrap(),
                );
            }
            // Watchdog: a hung case is inconclusive, never a violation.
            let (busy, done) = (&busy, &done);
            s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = (self.elapsed() * 1000.0) as u64;
                    for b in busy.iter() {
                        let i = b.0.load(Ordering::Relaxed);
                        if i != u64::MAX && now.saturating_sub(b.1.load(Ordering::Relaxed)) as f64 > hang_secs * 1000.0 {
                            {
                                let mut g = self.inner.lock().unwrap();
                                *g.inconclusive.entry(format!("case exceeded {hang_secs}s: {label}#{i}")).or_default() += 1;
                                g.harness_errors.push(format!("hang: {label}#{i} exceeded {hang_secs}s"));
                            }
                            self.finish();
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
        });
    }

    fn one<F: Fn(&mut Case)>(&self, label: &str, idx: u64, f: &F) {
        self.mark(label, idx);
        let mut case = Case {
            label,
            idx,
            rng: Rng::derive(seed(), label, idx),
            evals: 0,
            distinct: Vec::new(),
            counters: BTreeMap::new(),
            sets: Vec::new(),
            sample: None,
            violations: Vec::new(),
            inconclusive: Vec::new(),
        };
        let r = guard(|| f(&mut case));
        if let Err(p) = r {
            if p.from_sut() {
                case.fail(&p.sig(), format!("unexpected panic at {}: {}", p.location, p.message));
            } else {
                self.harness_error(format!("{label}#{idx}: monitor panic at {}: {}", p.location, p.message));
            }
        }
        let mut g = self.inner.lock().unwrap();
        g.evaluations += case.evals;
        let before = g.distinct.len();
        for d in case.distinct {
            g.distinct.insert(d);
        }
        let added = (g.distinct.len() - before) as u64;
        let e = g.groups.entry(label.to_string()).or_default();
        e.0 += case.evals;
        e.1 += added;
        for (k, v) in case.counters {
            *g.counters.entry(k).or_default() += v;
        }
        for (k, h) in case.sets {
            g.sets.entry(k).or_default().insert(h);
        }
        if let Some(s) = case.sample {
            let c = g.sample_labels.entry(label.to_string()).or_default();
            if *c < 2 {
                *c += 1;
                g.samples.push(json!({"case": format!("{label}#{idx}"), "data": s}));
            }
        }
        for (sig, detail, data) in case.violations {
            g.violation_total += 1;
            let c = g.sig_counts.entry(sig.clone()).or_default();
            *c += 1;
            if *c <= 3 {
                g.violations.push(Violation { sig, detail, label: label.to_string(), idx, data });
            }
        }
        for w in case.inconclusive {
            *g.inconclusive.entry(w).or_default() += 1;
        }
    }

    /// Write the result file and exit the process.
    pub fn finish(&self) -> ! {
        let g = self.inner.lock().unwrap();
        let mut counters = Map::new();
        for (k, v) in &g.counters {
            counters.insert(k.clone(), json!(v));
        }
        for (k, v) in &g.sets {
            counters.insert(format!("distinct:{k}"), json!(v.len()));
        }
        let out = json!({
            "evaluations": g.evaluations,
            "distinct_nontrivial": g.distinct.len(),
            "observed": counters,
            "groups": g.groups.iter().map(|(k,v)| (k.clone(), json!({"evaluations": v.0, "distinct_nontrivial": v.1}))).collect::<Map<_,_>>(),
            "samples": g.samples,
            "rules": g.rules,
            "violations": g.violations.iter().map(|v| json!({"sig": v.sig, "detail": v.detail, "case": format!("{}#{}", v.label, v.idx), "data": v.data})).collect::<Vec<_>>(),
            "violation_total": g.violation_total,
            "sig_counts": g.sig_counts,
            "inconclusive": g.inconclusive,
            "harness_errors": g.harness_errors,
            "wall_s": self.elapsed(),
            "seed": seed(),
        });
        let text = serde_json::to_string_pretty(&out).unwrap();
        match std::env::var("VK_OUT") {
            Ok(p) => {
                let mut f = std::fs::File::create(format!("{p}.tmp")).unwrap();
                f.write_all(text.as_bytes()).unwrap();
                std::fs::rename(format!("{p}.tmp"), p).unwrap();
            }
            Err(_) => println!("{text}"),
        }
        let _ = std::io::stdout().flush();
        // Skip destructors: a hung worker must not block the exit.
        unsafe { libc::_exit(0) }
    }
}

pub struct Case<'a> {
    pub label: &'a str,
    pub idx: u64,
    pub rng: Rng,
    evals: u64,
    distinct: Vec<u64>,
    counters: BTreeMap<String, u64>,
    sets: Vec<(String, u64)>,
    sample: Option<Value>,
    violations: Vec<(String, String, Value)>,
    inconclusive: Vec<String>,
}

impl Case<'_> {
    /// One evaluation of the property.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// This case is non-trivial; `key` identifies it up to equality.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, key: &T) {
        self.distinct.push(hash_of(key));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    /// Record membership in a named set whose size is reported as evidence.
    pub fn seen<T: Hash + ?Sized>(&mut self, set: &str, key: &T) {
        self.sets.push((set.to_string(), hash_of(key)));
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.sample.is_none() && self.idx < 4 {
            self.sample = Some(v());
        }
    }
    pub fn fail(&mut self, sig: &str, detail: impl Into<String>) {
        self.fail_with(sig, detail, Value::Null)
    }
    pub fn fail_with(&mut self, sig: &str, detail: impl Into<String>, data: Value) {
        let mut d: String = detail.into();
        if d.len() > 6000 {
            let mut cut = 6000;
            while !d.is_char_boundary(cut) {
                cut -= 1;
            }
            d.truncate(cut);
            d.push_str(" …");
        }
        self.violations.push((sig.to_string(), d, data));
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn inconclusive(&mut self, why: &str) {
        self.inconclusive.push(why.to_string());
    }
    /// Run code under test; a panic inside is a violation with the panic's signature.
    /// Like `sut`, but gives up waiting after `secs` (the call is left behind on its own
    /// thread): not an outcome, only counted.
    pub fn sut_within<T: Send + 'static>(&mut self, what: &str, secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let _ = tx.send(guard(f));
            })
            .unwrap();
        match rx.recv_timeout(Duration::from_secs(secs)) {
            Ok(Ok(v)) => Some(v),
            Ok(Err(p)) => {
                if p.from_sut() {
                    self.fail(&p.sig(), format!("{what}: panic at {}: {}", p.location, p.message));
                    None
                } else {
                    panic!("monitor panic inside sut({what}) at {}: {}", p.location, p.message)
                }
            }
            Err(_) => {
                self.count("gave_up_waiting", 1);
                None
            }
        }
    }
    pub fn sut<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        let t0 = std::time::Instant::now();
        let r = guard(f);
        if t0.elapsed().as_millis() > 1000 && std::env::var("VK_SLOW").is_ok() {
            eprintln!("slow {what} {}ms {}#{}", t0.elapsed().as_millis(), self.label, self.idx);
        }
        match r {
            Ok(v) => Some(v),
            Err(p) => {
                if p.from_sut() {
                    self.fail(&p.sig(), format!("{what}: panic at {}: {}", p.location, p.message));
                    None
                } else {
                    panic!("monitor panic inside sut({what}) at {}: {}", p.location, p.message)
                }
            }
        }
    }
}
