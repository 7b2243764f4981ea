use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) { for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); } }
    pub fn string(&mut self, alphabet: &[char], max: usize) -> String { let n = self.below(max + 1); (0..n).map(|_| *self.pick(alphabet)).collect() }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    deadline: Instant,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    pub violations: Vec<Value>,
    per_key: std::collections::BTreeMap<String, usize>,
    pub rule: String,
    pub rt: tokio::runtime::Runtime,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, budget: u64) -> Self {
        Ctx { seed, thorough, deadline: Instant::now() + Duration::from_secs(budget), evals: 0, distinct: HashSet::new(), samples: vec![], violations: vec![], per_key: Default::default(), rule: String::new(),
              rt: tokio::runtime::Builder::new_multi_thread().worker_threads(2).thread_stack_size(32 << 20).enable_all().build().unwrap() }
    }
    pub fn rng(&self, stream: u64) -> Rng { let mut r = Rng(self.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ stream.wrapping_mul(0xD6E8FEB86659FD93)); r.next(); r }
    pub fn time_left(&self) -> bool { Instant::now() < self.deadline }
    /// enough evidence of breakage: stop searching
    pub fn done(&self) -> bool { self.violations.len() >= 40 || !self.time_left() }
    pub fn rule(&mut self, r: &str) { self.rule = r.into(); }
    /// count one evaluated case; `nontrivial` by the stated rule
    pub fn case<T: Hash>(&mut self, nontrivial: bool, id: T, describe: impl FnOnce() -> Value) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            id.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 97 == 0)) { self.samples.push(describe()); }
        }
    }
    pub fn violation(&mut self, key: &str, what: &str, case: Value) {
        let n = self.per_key.entry(key.to_string()).or_insert(0);
        *n += 1;
        if *n <= 4 { self.violations.push(json!({"key": key, "what": what, "case": case})); }
    }
    pub fn report(&self) -> String {
        serde_json::to_string_pretty(&json!({"evaluations": self.evals, "distinct_nontrivial": self.distinct.len(), "rule": self.rule, "samples": self.samples,
            "violations": self.violations, "by_key": self.per_key})).unwrap()
    }
}

static WHERE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn quiet_panics() { std::panic::set_hook(Box::new(|i| { *WHERE.lock().unwrap() = i.location().map_or(String::new(), |l| l.to_string()); })); }

/// Run code under test; a panic is an outcome.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into()) + " at " + &*WHERE.lock().unwrap()
    })
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let base = std::env::var("HX_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::path::Path::new(&base).join(format!("hx-{}-{tag}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn write(&self, rel: &str, data: &[u8]) {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
    pub fn uri(&self) -> String { url::Url::from_directory_path(&self.0).unwrap().to_string() }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// ---- guards against code under test that never returns, or reserves memory without bound ----
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
static CASE: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
static SINCE: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0) }
pub struct Watched;
#[global_allocator]
static ALLOC: Watched = Watched;
fn note(n: usize) {
    if n > 64 << 20 {
        LARGEST.fetch_max(n, Ordering::SeqCst);
        if n > 6 << 30 { bail("memory", &format!("{n} bytes are reserved at once")); }
    }
}
unsafe impl std::alloc::GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { note(n); std::alloc::System.realloc(p, l, n) }
}
fn bail(key: &str, what: &str) {
    let case = CASE.try_lock().ok().and_then(|c| c.clone());
    if let (Some(c), Some(out)) = (case, OUT.get()) {
        let c: Value = serde_json::from_str(&c).unwrap_or(Value::Null);
        let _ = std::fs::write(out, json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped by the guard", "samples": [], "violations": [{"key": key, "what": what, "case": c}], "by_key": {key: 1}}).to_string());
        std::process::exit(0);
    }
}
/// the case the code under test runs on now
pub fn watch(case: &Value) { *CASE.lock().unwrap() = Some(case.to_string()); LARGEST.store(0, Ordering::SeqCst); SINCE.store(now(), Ordering::SeqCst); }
/// the case is over: the largest single allocation above 64 MB it made
pub fn unwatch() -> usize { SINCE.store(0, Ordering::SeqCst); *CASE.lock().unwrap() = None; LARGEST.load(Ordering::SeqCst) }
pub fn start_guard(out: &str) {
    let _ = OUT.set(out.to_string());
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(2));
        let s = SINCE.load(Ordering::SeqCst);
        if s != 0 && now() > s + 40 { bail("hang", "the call has not returned after 40 s"); }
    });
}
