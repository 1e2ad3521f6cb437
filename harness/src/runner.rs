//! Drives generated cases against executable oracles, shrinks failures, writes replays and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// The oracle rejected an observation.
    Violation(String),
    /// Something that had to happen did not, within the wall-clock bound used on real TCP sockets.
    /// Only reported as a violation when it can be reproduced.
    Stall(String),
    /// The harness could not do its own work (no sockets, ...): never a verdict.
    Harness(String),
}

pub type R<T = ()> = Result<T, Fail>;

pub fn violation<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Violation(s.into()))
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::runner::Fail::Violation(format!($($arg)*))); }
    };
}

/// What a case tells about itself while it runs.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub struct Suite<C: 'static> {
    pub name: &'static str,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Ctx) -> R,
    pub quick: u32,
    pub thorough: u32,
    /// How many worker threads may run cases of this suite at once.
    pub workers: usize,
}

pub trait DynSuite: Send + Sync {
    fn name(&self) -> &'static str;
    fn execute(&self, property: &str, tier: Tier, seed: u64, report: &mut Report);
    fn replay(&self, case: &Value) -> R;
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub suites: Vec<Box<dyn DynSuite>>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub inconclusive: u64,
    pub suites: BTreeMap<String, Value>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub harness_error: Option<String>,
}

pub struct Failure {
    pub suite: String,
    pub case: Value,
    pub message: String,
}

// ---------------------------------------------------------------------------------------------
// panics: recorded per thread (and per process, for multi-threaded runtimes), never printed

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
static ALL_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub const EXPECTED_PANIC: &str = "verif-expected-panic";

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if text.contains(EXPECTED_PANIC) {
            return;
        }
        PANICS.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.push(text.clone());
            }
        });
        let name = std::thread::current().name().unwrap_or("").to_string();
        if name == "main" {
            eprintln!("harness panic: {text}");
        }
        if let Ok(mut all) = ALL_PANICS.lock() {
            all.push((name, text));
        }
    }));
}

pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Panics of threads whose name starts with `prefix`.
pub fn take_panics_of_threads(prefix: &str) -> Vec<String> {
    let mut all = ALL_PANICS.lock().unwrap();
    let mut mine = vec![];
    all.retain(|(n, t)| {
        if n.starts_with(prefix) {
            mine.push(t.clone());
            false
        } else {
            true
        }
    });
    mine
}

// ---------------------------------------------------------------------------------------------
// wall-clock bound for things that must happen on real TCP sockets; shortened while shrinking

static STALL_MILLIS: AtomicU64 = AtomicU64::new(10_000);
pub fn stall_bound() -> Duration {
    Duration::from_millis(STALL_MILLIS.load(Ordering::Relaxed))
}
pub fn set_stall_bound(ms: u64) {
    STALL_MILLIS.store(ms, Ordering::Relaxed)
}

// ---------------------------------------------------------------------------------------------
// watchdog: a case that burns a minute of CPU time in one poll is a livelock of the code under test

struct Slot {
    clock: libc::clockid_t,
    cpu_at_start: Duration,
    started: Instant,
    property: String,
    suite: String,
    case: Value,
}
static SLOTS: Mutex<BTreeMap<usize, Slot>> = Mutex::new(BTreeMap::new());

fn cpu_of(clock: libc::clockid_t) -> Option<Duration> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain syscall writing into ts
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return None;
    }
    Some(Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32))
}

pub const LIVELOCK_CPU_SECS: u64 = 30;
pub const WATCHDOG_WALL_SECS: u64 = 600;

/// No case comes anywhere near this.
const MEMORY_LIMIT: u64 = 8 << 30;

fn resident() -> u64 {
    let text = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    text.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) * 4096
}

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(100));
        if resident() > MEMORY_LIMIT {
            let slots = SLOTS.lock().unwrap();
            if let Some(s) = slots.values().min_by_key(|s| s.started) {
                let f = Failure {
                    suite: s.suite.clone(),
                    case: s.case.clone(),
                    message: format!("memory: more than {} GiB are held in the middle of a case", MEMORY_LIMIT >> 30),
                };
                let path = write_replay(&s.property, &f);
                println!("{}", f.message);
                println!("VIOLATION property={} replay={}", s.property, path);
                std::process::exit(1);
            }
        }
        let slots = SLOTS.lock().unwrap();
        for s in slots.values() {
            let cpu = cpu_of(s.clock).unwrap_or_default().saturating_sub(s.cpu_at_start);
            if cpu > Duration::from_secs(LIVELOCK_CPU_SECS) {
                let f = Failure {
                    suite: s.suite.clone(),
                    case: s.case.clone(),
                    message: format!(
                        "livelock: a single case consumed {}s of CPU time without returning",
                        cpu.as_secs()
                    ),
                };
                let path = write_replay(&s.property, &f);
                println!("{}", f.message);
                println!("VIOLATION property={} replay={}", s.property, path);
                std::process::exit(1);
            }
            if s.started.elapsed() > Duration::from_secs(WATCHDOG_WALL_SECS) {
                eprintln!(
                    "watchdog: a case of {}/{} did not return within {WATCHDOG_WALL_SECS}s: no answer",
                    s.property, s.suite
                );
                std::process::exit(3);
            }
        }
    });
}

static NEXT_SLOT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MY_SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) as usize;
}

/// Where cases are written down before they run (see crash.rs).
fn trace() -> Option<&'static std::path::Path> {
    static DIR: std::sync::OnceLock<Option<std::path::PathBuf>> = std::sync::OnceLock::new();
    DIR.get_or_init(|| std::env::var_os(crate::crash::TRACE).map(|d| d.into())).as_deref()
}

fn guarded<T>(property: &str, suite: &str, case: Value, f: impl FnOnce() -> T) -> T {
    let slot = MY_SLOT.with(|s| *s);
    let mut clock: libc::clockid_t = 0;
    // SAFETY: plain libc call on the current thread
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
    if let Some(dir) = trace() {
        let text = json!({"property": property, "suite": suite, "case": case}).to_string();
        let _ = std::fs::write(dir.join(format!("{slot}.json")), text);
    }
    SLOTS.lock().unwrap().insert(
        slot,
        Slot {
            clock,
            cpu_at_start: cpu_of(clock).unwrap_or_default(),
            started: Instant::now(),
            property: property.to_string(),
            suite: suite.to_string(),
            case,
        },
    );
    let r = f();
    SLOTS.lock().unwrap().remove(&slot);
    r
}

// ---------------------------------------------------------------------------------------------

pub fn replay_dir() -> String {
    std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| "/verif/replays".to_string())
}

pub fn write_replay(property: &str, f: &Failure) -> String {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": property, "suite": f.suite, "case": f.case, "message": f.message});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut h);
    let path = format!("{dir}/{property}-{}-{:016x}.json", f.suite, h.finish());
    let _ = std::fs::write(&path, text);
    path
}

fn seed_bytes(seed: u64, property: &str, suite: &str, worker: usize) -> [u8; 32] {
    // splitmix64 over a simple stable hash of the labels
    let mut x: u64 = 0xcbf29ce484222325;
    for b in property.bytes().chain([b'/']).chain(suite.bytes()) {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    x ^= seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((worker as u64) << 32);
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn hash_value(v: &Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}

fn run_one<C: Serialize>(
    property: &str,
    suite: &str,
    run: fn(&C, &mut Ctx) -> R,
    case: &C,
    value: &Value,
    ctx: &mut Ctx,
) -> R {
    take_panics();
    let r = guarded(property, suite, value.clone(), || {
        catch_unwind(AssertUnwindSafe(|| run(case, ctx)))
    });
    let panics = take_panics();
    if let Some(size) = crate::meter::overrun() {
        return violation(format!("memory: something was written beyond the end of a block of {size} bytes"));
    }
    match r {
        Ok(Err(Fail::Harness(e))) => Err(Fail::Harness(e)),
        Ok(r) => {
            if !panics.is_empty() {
                return violation(format!("panic: {}", panics.join(" | ")));
            }
            r
        }
        Err(_) => {
            let text = panics.join(" | ");
            if text.contains("verif/harness/src") || text.contains("at src/") {
                // a panic of the harness itself is not a verdict
                Err(Fail::Harness(format!("harness panic: {text}")))
            } else {
                violation(format!("panic: {text}"))
            }
        }
    }
}

/// A check stops generating after this long (a loaded machine must not turn it into a timeout).
static DEADLINE: Mutex<Option<Instant>> = Mutex::new(None);
pub fn set_deadline(d: Duration) {
    *DEADLINE.lock().unwrap() = Some(Instant::now() + d);
}
fn out_of_time() -> bool {
    DEADLINE.lock().unwrap().is_some_and(|d| Instant::now() > d)
}

/// So many cases that stalled once are no accident of the machine.
const STALLS: u64 = 4;

struct Shared {
    stop: AtomicBool,
    evaluations: AtomicU64,
    inconclusive: AtomicU64,
    nontrivial: Mutex<HashSet<u64>>,
    labels: Mutex<BTreeMap<&'static str, u64>>,
    samples: Mutex<Vec<Value>>,
    failure: Mutex<Option<Failure>>,
    harness_error: Mutex<Option<String>>,
}

/// Environment override for experiments: VERIF_SCALE=10 runs ten times the cases.
fn scale() -> f64 {
    std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

impl<C> DynSuite for Suite<C>
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, case: &Value) -> R {
        let c: C = serde_json::from_value(case.clone())
            .map_err(|e| Fail::Harness(format!("bad replay: {e}")))?;
        run_one("replay", self.name, self.run, &c, case, &mut Ctx::default())
    }

    fn execute(&self, property: &str, tier: Tier, seed: u64, report: &mut Report) {
        let total = match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * scale()).ceil() as u32).max(1);
        let workers = self.workers.max(1);
        let per = total.div_ceil(workers as u32);
        let shared = Arc::new(Shared {
            stop: AtomicBool::new(false),
            evaluations: AtomicU64::new(0),
            inconclusive: AtomicU64::new(0),
            nontrivial: Mutex::new(HashSet::new()),
            labels: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            failure: Mutex::new(None),
            harness_error: Mutex::new(None),
        });
        let started = Instant::now();
        std::thread::scope(|scope| {
            for w in 0..workers {
                let shared = shared.clone();
                let property = property.to_string();
                let (name, strategy, run) = (self.name, self.strategy, self.run);
                std::thread::Builder::new()
                    .name(format!("w{w}"))
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        worker(&property, name, strategy(tier), run, per, seed, w, &shared)
                    })
                    .expect("spawn worker");
            }
        });
        let evaluations = shared.evaluations.load(Ordering::Relaxed);
        let nontrivial = shared.nontrivial.lock().unwrap().len() as u64;
        report.evaluations += evaluations;
        report.distinct_nontrivial += nontrivial;
        report.inconclusive += shared.inconclusive.load(Ordering::Relaxed);
        report.suites.insert(
            self.name.to_string(),
            json!({
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "labels": *shared.labels.lock().unwrap(),
                "wall_s": started.elapsed().as_secs_f64(),
            }),
        );
        for s in shared.samples.lock().unwrap().drain(..) {
            report.samples.push(json!({"suite": self.name, "case": s}));
        }
        report.failure = shared.failure.lock().unwrap().take();
        report.harness_error = shared.harness_error.lock().unwrap().take();
    }
}

#[allow(clippy::too_many_arguments)]
fn worker<C>(
    property: &str,
    suite: &'static str,
    strategy: BoxedStrategy<C>,
    run: fn(&C, &mut Ctx) -> R,
    cases: u32,
    seed: u64,
    w: usize,
    shared: &Shared,
) where
    C: Serialize + std::fmt::Debug + Clone + 'static,
{
    let config = Config {
        cases,
        failure_persistence: None,
        // VERIF_SHRINK=0: only the verdict matters (experiments)
        max_shrink_iters: if std::env::var("VERIF_SHRINK").is_ok_and(|v| v == "0") { 0 } else { 1500 },
        max_shrink_time: 45_000,
        max_global_rejects: 100_000,
        verbose: 0,
        ..Config::default()
    };
    let rng = TestRng::from_seed(
        RngAlgorithm::ChaCha,
        &seed_bytes(seed, property, suite, w),
    );
    let mut runner = TestRunner::new_with_rng(config, rng);
    let shrinking = std::cell::Cell::new(false);
    let result = runner.run(&strategy, |case: C| {
        if !shrinking.get() && (shared.stop.load(Ordering::Relaxed) || out_of_time()) {
            return Ok(());
        }
        let value = serde_json::to_value(&case).expect("cases are serializable");
        let mut ctx = Ctx::default();
        let mut r = run_one(property, suite, run, &case, &value, &mut ctx);
        for n in 0..4 {
            if shrinking.get() || !matches!(r, Err(Fail::Harness(_))) {
                break;
            }
            // no sockets, no ports: that may pass
            std::thread::sleep(Duration::from_secs(1 << n));
            r = run_one(property, suite, run, &case, &value, &mut ctx);
        }
        if !shrinking.get() {
            shared.evaluations.fetch_add(1, Ordering::Relaxed);
            let mut labels = shared.labels.lock().unwrap();
            for (l, n) in &ctx.labels {
                *labels.entry(l).or_default() += n;
            }
            drop(labels);
            if ctx.nontrivial && shared.nontrivial.lock().unwrap().insert(hash_value(&value)) {
                let mut samples = shared.samples.lock().unwrap();
                if samples.len() < 3 && value.to_string().len() < 3000 {
                    samples.push(value.clone());
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(Fail::Harness(e)) => {
                if shrinking.get() {
                    return Ok(());
                }
                shared.stop.store(true, Ordering::Relaxed);
                shared.harness_error.lock().unwrap().get_or_insert(e);
                Ok(())
            }
            Err(Fail::Violation(m)) => {
                // the first worker to fail shrinks, the others stop
                if !shrinking.get() && shared.stop.swap(true, Ordering::SeqCst) {
                    return Ok(());
                }
                shrinking.set(true);
                Err(TestCaseError::fail(m))
            }
            Err(Fail::Stall(m)) => {
                if !shrinking.get() {
                    // wall-clock based: it has to fail again before it counts
                    let again = (0..2).any(|_| {
                        let r = run_one(property, suite, run, &case, &value, &mut Ctx::default());
                        matches!(r, Err(Fail::Violation(_) | Fail::Stall(_)))
                    });
                    // ... or to happen in several cases: a rare race does not repeat on demand
                    if !again && shared.inconclusive.fetch_add(1, Ordering::Relaxed) + 1 < STALLS {
                        return Ok(());
                    }
                    if shared.stop.swap(true, Ordering::SeqCst) {
                        return Ok(());
                    }
                    set_stall_bound(2500);
                }
                shrinking.set(true);
                Err(TestCaseError::fail(format!("stall: {m}")))
            }
        }
    });
    match result {
        Ok(()) => {}
        Err(TestError::Fail(reason, case)) => {
            let f = Failure {
                suite: suite.to_string(),
                case: serde_json::to_value(&case).expect("serializable"),
                message: reason.message().to_string(),
            };
            shared.failure.lock().unwrap().get_or_insert(f);
        }
        Err(TestError::Abort(reason)) => {
            shared
                .harness_error
                .lock()
                .unwrap()
                .get_or_insert(format!("generator aborted: {reason}"));
        }
    }
}
