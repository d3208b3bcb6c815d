//! Verdicts, evidence, seeded generation, panic capture.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ 0xA076_1D64_78BD_642F);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        hash64(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn hash64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    hash64(hash64(a ^ 0x1234_5678_9ABC_DEF1).wrapping_add(b.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Check {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    pub evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    rule: String,
    assumptions: Vec<String>,
    n_violations: usize,
    sigs: HashSet<String>,
    known: Vec<(String, String)>,
    known_hit: HashSet<String>,
    minima: Vec<(String, u64)>,
    root: PathBuf,
    out: std::fs::File,
    exhaustive: bool,
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub file: String,
    pub line: u32,
}

static LAST_PANIC: Mutex<Option<Panicked>> = Mutex::new(None);
pub const MONITOR: &str = "MONITOR:";

impl Panicked {
    /// Raised by the harness itself (not by a monitor inside a callback)?
    fn is_harness(&self) -> bool {
        let own = self.file.starts_with("src/") || self.file.contains("/verif/harness/");
        own && !self.msg.starts_with(MONITOR)
    }
    pub fn text(&self) -> String {
        let m: String = self.msg.lines().next().unwrap_or("").chars().take(300).collect();
        format!("panic at {}:{}: {}", self.file, self.line, m)
    }
}

static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static FINDING: std::sync::OnceLock<(String, u64, PathBuf, i32)> = std::sync::OnceLock::new();

/// The code under test panics while a monitor asks it about an observed state.
fn unguarded(p: &Panicked) -> ! {
    let Some((id, seed, root, fd)) = FINDING.get() else { std::process::exit(101) };
    let dir = root.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-seed{seed}-panic.json"));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "seed": seed, "what": p.text(), "rerun": format!("VERIF_SEED={seed} bash /verif/check.sh {id}")})).unwrap());
    let mut out = unsafe { std::fs::File::from_raw_fd(dup(*fd)) };
    let _ = writeln!(out, "{id}: {}", p.text());
    let _ = writeln!(out, "VIOLATION property={id} replay={}", path.display());
    std::process::exit(1)
}

/// Runs code under test; a panic in it is returned, a panic of the harness ends the run as an error.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    match res {
        Ok(r) => Ok(r),
        Err(_) => {
            let p = take_panic();
            if p.is_harness() {
                eprintln!("harness error: {}", p.text());
                std::process::exit(3);
            }
            Err(p)
        }
    }
}

/// The same for threads whose panics are nobody's concern.
pub fn unwound<R>(f: impl FnOnce() -> R) -> Option<R> {
    DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    res.ok()
}

pub fn take_panic() -> Panicked {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or(Panicked { msg: "unknown panic".into(), file: "?".into(), line: 0 })
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

impl Check {
    pub fn new(id: &'static str, rule: &str) -> Check {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        crate::entropy::seed_global(hash2(seed, hash_of(&id)));
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "non-string panic".into());
            let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or(("?".into(), 0));
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("[panic] {file}:{line} {msg}");
            }
            if DEPTH.load(std::sync::atomic::Ordering::SeqCst) == 0 && file.contains("/repo/src/") {
                unguarded(&Panicked { msg, file, line });
            }
            let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
            // the first panic of a batch is the cause, later ones follow from it
            if g.is_none() {
                *g = Some(Panicked { msg, file, line });
            }
        }));
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
        let known = std::fs::read_to_string(root.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let mut it = l.splitn(3, ' ');
                let p = it.next()?.to_string();
                let sig = it.next()?.strip_prefix("sig=")?.to_string();
                (p == id).then(|| (sig, it.next().unwrap_or("").to_string()))
            })
            .collect();
        // keep the real stdout for verdicts, silence the prints of the code under test
        let out = unsafe {
            let keep = dup(1);
            let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
            dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 1);
            std::fs::File::from_raw_fd(keep)
        };
        let _ = FINDING.set((id.to_string(), seed, root.clone(), std::os::fd::AsRawFd::as_raw_fd(&out)));
        tch::set_num_threads(1);
        tch::manual_seed(hash2(seed, 77) as i64 & 0xFFFF_FFFF);
        Check {
            id,
            seed,
            thorough,
            start: Instant::now(),
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            rule: rule.to_string(),
            assumptions: vec![],
            n_violations: 0,
            sigs: HashSet::new(),
            known,
            known_hit: HashSet::new(),
            minima: vec![],
            root,
            out,
            exhaustive: false,
        }
    }

    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(hash2(hash2(self.seed, hash_of(&self.id)), stream))
    }

    /// quick or thorough amount
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// True once the time budget of the tier is used (loops stop early, never a verdict).
    pub fn out_of_time(&self) -> bool {
        let cap = if self.thorough { 3600 } else { 420 };
        self.start.elapsed() > Duration::from_secs(cap)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn say(&mut self, s: &str) {
        let _ = writeln!(self.out, "{s}");
    }

    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 6 {
            self.samples.push(v);
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }
    /// The run is inconclusive if fewer than n of these were observed.
    pub fn require(&mut self, counter: &str, n: u64) {
        self.minima.push((counter.to_string(), n));
    }
    pub fn full(&self) -> bool {
        self.n_violations >= 3
    }
    pub fn violated(&self) -> bool {
        self.n_violations > 0
    }

    /// `sig` identifies the kind of failure; one report per kind.
    pub fn violation(&mut self, sig: &str, what: &str, witness: Value) {
        if let Some((_, text)) = self.known.iter().find(|(s, _)| s == sig).cloned() {
            if self.known_hit.insert(sig.to_string()) {
                let id = self.id;
                self.say(&format!("KNOWN-FINDING: property={id} {text}"));
            }
            return;
        }
        if !self.sigs.insert(sig.to_string()) {
            return;
        }
        self.n_violations += 1;
        let dir = self.root.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-{}.json", self.id, self.seed, self.n_violations));
        let body = json!({
            "property": self.id, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
            "signature": sig, "what": what, "witness": witness,
            "rerun": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/check.sh {}", self.seed, if self.thorough {"thorough"} else {"quick"}, self.id),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        let id = self.id;
        self.say(&format!("{id}: {what}"));
        self.say(&format!("VIOLATION property={id} replay={}", path.display()));
    }

    /// Runs code under test; a panic is a violation.
    pub fn run<R>(&mut self, sig: &str, what: &str, witness: impl FnOnce() -> Value, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.violation(&format!("panic-{sig}"), &format!("{what}: {}", p.text()), witness());
                None
            }
        }
    }

    pub fn finish(mut self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let mut inconclusive = vec![];
        for (k, n) in &self.minima {
            let have = if k == "evaluations" { self.evals } else { self.counters.get(k).copied().unwrap_or(0) };
            if have < *n {
                inconclusive.push(format!("{k}: observed {have}, need {n}"));
            }
        }
        let mut coverage = json!({
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
            "observed": self.counters,
        });
        if self.exhaustive {
            coverage["exhaustive"] = json!(true);
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.n_violations,
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap())
            .expect("cannot write evidence");
        let (id, evals, d) = (self.id, self.evals, self.distinct.len());
        if self.n_violations > 0 {
            std::process::exit(1);
        }
        if !inconclusive.is_empty() {
            self.say(&format!("INCONCLUSIVE property={id} {}", inconclusive.join("; ")));
            std::process::exit(2);
        }
        self.say(&format!("{id}: held on {evals} evaluations ({d} distinct non-trivial), {wall:.1}s"));
        let c = self.counters.clone();
        for (k, v) in c {
            self.say(&format!("  {k}: {v}"));
        }
        std::process::exit(0);
    }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

/// A scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or("/tmp".into());
        static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = PathBuf::from(base).join(format!("vh-{tag}-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let s = self.0.to_string_lossy().to_string();
        if s.contains("/vh-") {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}
