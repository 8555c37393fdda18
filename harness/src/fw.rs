//! Small driver around proptest: deterministic sharded generation, shrinking, replay files,
//! evidence. Every random choice is made by proptest strategies seeded from VERIF_SEED.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

/// What a single case tells the framework about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Obs {
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    pub fn nt_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    frozen: bool,
}

pub struct Replay {
    pub check: String,
    pub bytes: Vec<u8>,
}

pub struct Run {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    pub only: Option<String>,
    pub replay: Option<Replay>,
    pub root: PathBuf,
    start: Instant,
    checks: Vec<serde_json::Value>,
    evaluations: u64,
    distinct: u64,
    samples: Vec<serde_json::Value>,
    violations: Vec<(String, String)>,
    errors: Vec<String>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    replayed: bool,
}

// ---- cases that never end ---------------------------------------------------------------

/// A case that runs longer than this is taken not to terminate (cases take milliseconds).
const CASE_LIMIT_S: u64 = 100;
/// A case that holds more memory than this is taken to grow without bound.
const CASE_LIMIT_BYTES: isize = 1 << 30;

struct Running {
    since: Instant,
    check: String,
    value: usize,
    describe: fn(usize) -> (Vec<u8>, String),
}

static SLOTS: [Mutex<Option<Running>>; SHARDS] = [const { Mutex::new(None) }; SHARDS];
static EXHAUSTED: [AtomicBool; SHARDS] = [const { AtomicBool::new(false) }; SHARDS];

/// Counts what the thread that runs a case holds; one that holds too much is stopped here
/// for the monitor to report.
pub struct Counting;

thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn account(bytes: isize) {
    let _ = HELD.try_with(|h| {
        let now = h.get() + bytes;
        h.set(now);
        if now > CASE_LIMIT_BYTES {
            let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
            if slot < SHARDS {
                EXHAUSTED[slot].store(true, Ordering::SeqCst);
                loop {
                    std::thread::sleep(Duration::from_secs(1));
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        account(new as isize - l.size() as isize);
        System.realloc(p, l, new)
    }
}

/// Runs one case under the eyes of the monitor.
fn watched<T: Debug + Serialize>(
    slot: usize,
    check: &str,
    value: &T,
    f: impl FnOnce() -> Result<(), String>,
) -> Result<(), String> {
    fn describe<T: Debug + Serialize>(at: usize) -> (Vec<u8>, String) {
        // The slot is locked and still set, so `value` is alive and nobody writes to it.
        let value = unsafe { &*(at as *const T) };
        (bincode::serialize(value).unwrap_or_default(), format!("{value:?}"))
    }
    *SLOTS[slot].lock().unwrap() = Some(Running {
        since: Instant::now(),
        check: check.to_string(),
        value: value as *const T as usize,
        describe: describe::<T>,
    });
    SLOT.with(|s| s.set(slot));
    HELD.with(|h| h.set(0));
    let out = guarded(f).and_then(|r| r);
    SLOT.with(|s| s.set(usize::MAX));
    *SLOTS[slot].lock().unwrap() = None;
    out
}

/// Ends the run with a violation when a case does not end or grows without bound.
pub fn start_monitor(property: &str, root: &Path, seed: u64, thorough: bool, replay: bool) {
    let (property, root) = (property.to_string(), root.to_path_buf());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        for slot in 0..SHARDS {
            let exhausted = EXHAUSTED[slot].load(Ordering::SeqCst);
            let guard = SLOTS[slot].lock().unwrap();
            let Some(r) = guard.as_ref() else { continue };
            if !exhausted && r.since.elapsed().as_secs() < CASE_LIMIT_S {
                continue;
            }
            let msg = if exhausted {
                "takes more and more memory on this input".to_string()
            } else {
                format!("does not end within {CASE_LIMIT_S} s on this input")
            };
            let (bytes, dbg) = (r.describe)(r.value);
            if replay {
                println!("fails: {msg}");
                std::process::exit(1);
            }
            let path = write_replay(&root, &property, &r.check, &msg, &bytes, &dbg, seed);
            println!("  {}: {msg}", r.check);
            let evidence = serde_json::json!({
                "property": property, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was ended by a case that did not end",
                    "samples": [{"check": r.check, "case": truncate(dbg, 700)}],
                },
                "assumptions": [], "wall_s": r.since.elapsed().as_secs_f64(), "violations": 1,
            });
            let dir = root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(
                dir.join(format!("{property}.json")),
                serde_json::to_string_pretty(&evidence).unwrap(),
            );
            println!("VIOLATION property={property} replay={}", path.display());
            std::process::exit(1);
        }
    });
}

fn write_replay(root: &Path, property: &str, check: &str, msg: &str, bytes: &[u8], dbg: &str, seed: u64) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}-{check}.json"));
    let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
    let doc = serde_json::json!({
        "property": property, "check": check, "message": msg,
        "input": dbg, "input_bincode": hex, "seed": seed,
        "replay_with": format!("./check.sh {property} --replay {}", path.display()),
    });
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
        println!("error: cannot write {}: {e}", path.display());
    }
    path
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())),
    }
}

fn hash64(bytes: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    bytes.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, property: &str, check: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let h = hash64(format!("{seed}/{property}/{check}/{shard}/{i}").as_bytes());
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn truncate(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… ({} bytes)", &s[..end], s.len())
}

impl Run {
    pub fn new(property: &str, root: PathBuf, thorough: bool, seed: u64) -> Self {
        Run {
            property: property.to_string(),
            thorough,
            seed,
            scale: std::env::var("VERIF_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(match (thorough, property) {
                    (true, _) => 3.0,
                    // The dearer ones
                    (_, "C15" | "C32") => 3.0,
                    (_, "C17" | "C19" | "C21" | "C27" | "C28" | "C33" | "C45") => 4.0,
                    _ => 8.0,
                }),
            only: std::env::var("VERIF_ONLY").ok(),
            replay: None,
            root,
            start: Instant::now(),
            checks: vec![],
            evaluations: 0,
            distinct: 0,
            samples: vec![],
            violations: vec![],
            errors: vec![],
            rules: vec![],
            assumptions: vec![],
            replayed: false,
        }
    }

    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Decides one sub-check over generated cases. `cases` is the quick tier's total over all
    /// shards; the thorough tier runs 25 times as many.
    pub fn check<T, S>(
        &mut self,
        name: &str,
        cases: u32,
        strategy: impl Fn() -> S + Sync,
        test: impl Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    ) where
        S: Strategy<Value = T>,
        T: Debug + Clone + Serialize + DeserializeOwned,
    {
        if let Some(r) = &self.replay {
            if r.check != name {
                return;
            }
            self.replayed = true;
            let value: T = match bincode::deserialize(&r.bytes) {
                Ok(v) => v,
                Err(e) => {
                    self.errors.push(format!("cannot decode replay input: {e}"));
                    return;
                }
            };
            println!("replaying {}/{name}: {:?}", self.property, value);
            let mut obs = Obs::default();
            match watched(0, name, &value, || test(&value, &mut obs)) {
                Ok(()) => println!("holds on this input"),
                Err(e) => {
                    println!("fails: {e}");
                    self.violations.push((name.to_string(), e));
                }
            }
            return;
        }
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }

        let t0 = Instant::now();
        let mult = if self.thorough { 25.0 } else { 1.0 };
        let per_shard = (((cases as f64) * mult * self.scale) / SHARDS as f64).ceil().max(1.0) as u32;
        let property = self.property.clone();
        let seed = self.seed;
        // After a first violation the smallest example matters less than the answer
        let found = !self.violations.is_empty();
        let strategy = &strategy;
        let test = &test;

        type Outcome = (Stats, Result<(), Option<(String, Vec<u8>, String)>>, Option<String>);
        let mut outcomes: Vec<Outcome> = std::thread::scope(|scope| {
            let handles: Vec<_> = (0..SHARDS)
                .map(|shard| {
                    let property = property.clone();
                    let name = name.to_string();
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(scope, move || -> Outcome {
                            let stats = RefCell::new(Stats::default());
                            let config = Config {
                                cases: per_shard,
                                failure_persistence: None,
                                max_shrink_iters: 4000,
                                max_shrink_time: if found { 10_000 } else { 45_000 },
                                // Regenerating big nested inputs makes leaving a shrink slow
                                max_flat_map_regens: 2000,
                                max_global_rejects: per_shard.saturating_mul(4).max(1000),
                                max_local_rejects: 200_000,
                                verbose: 0,
                                ..Config::default()
                            };
                            let rng = TestRng::from_seed(
                                RngAlgorithm::ChaCha,
                                &seed_bytes(seed, &property, &name, shard),
                            );
                            let mut runner = TestRunner::new_with_rng(config, rng);
                            let result = runner.run(&strategy(), |value: T| {
                                let mut obs = Obs::default();
                                let outcome =
                                    watched(shard, &name, &value, || test(&value, &mut obs));
                                let mut st = stats.borrow_mut();
                                if !st.frozen {
                                    st.evaluations += 1;
                                    for l in &obs.labels {
                                        *st.labels.entry(l.to_string()).or_default() += 1;
                                    }
                                    if obs.nontrivial {
                                        let bytes = bincode::serialize(&value).unwrap_or_default();
                                        st.nontrivial.insert(hash64(&bytes));
                                        if st.samples.len() < 2 {
                                            st.samples
                                                .push(truncate(format!("{value:?}"), 700));
                                        }
                                    }
                                }
                                match outcome {
                                    Ok(()) => Ok(()),
                                    Err(e) => {
                                        st.frozen = true;
                                        Err(TestCaseError::fail(e))
                                    }
                                }
                            });
                            match result {
                                Ok(()) => (stats.into_inner(), Ok(()), None),
                                Err(TestError::Fail(reason, value)) => {
                                    let bytes = bincode::serialize(&value).unwrap_or_default();
                                    (
                                        stats.into_inner(),
                                        Err(Some((
                                            reason.message().to_string(),
                                            bytes,
                                            format!("{value:?}"),
                                        ))),
                                        None,
                                    )
                                }
                                Err(TestError::Abort(reason)) => (
                                    stats.into_inner(),
                                    Err(None),
                                    Some(format!("generator aborted: {}", reason.message())),
                                ),
                            }
                        })
                        .expect("spawn")
                })
                .collect();
            handles
                .into_iter()
                .map(|h| h.join().expect("harness thread died"))
                .collect()
        });

        let mut evaluations = 0;
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut failed = false;
        for (i, (st, res, err)) in outcomes.iter_mut().enumerate() {
            evaluations += st.evaluations;
            distinct.extend(st.nontrivial.iter());
            for (k, v) in &st.labels {
                *labels.entry(k.clone()).or_default() += v;
            }
            if i == 0 {
                for s in st.samples.drain(..) {
                    self.samples.push(serde_json::json!({"check": name, "case": s}));
                }
            }
            if let Some(e) = err {
                self.errors.push(format!("{name}: {e}"));
            }
            if let Err(Some((msg, bytes, dbg))) = res {
                if !failed {
                    failed = true;
                    self.record_violation(name, msg, bytes, dbg);
                }
            }
        }
        if !failed && distinct.is_empty() {
            self.errors
                .push(format!("{name}: no non-trivial case was generated"));
        }
        self.evaluations += evaluations;
        self.distinct += distinct.len() as u64;
        let wall = t0.elapsed().as_secs_f64();
        println!(
            "  {:<34} {:>8} cases {:>8} distinct non-trivial  {:>6.2}s  {}",
            name,
            evaluations,
            distinct.len(),
            wall,
            labels
                .iter()
                .map(|(k, v)| format!("{k}={v}"))
                .collect::<Vec<_>>()
                .join(" ")
        );
        self.checks.push(serde_json::json!({
            "name": name, "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(), "classes": labels,
        }));
    }

    /// Decides one sub-check over a finite list that is enumerated completely.
    pub fn enumerate<T>(
        &mut self,
        name: &str,
        cases: impl IntoIterator<Item = T>,
        test: impl Fn(&T, &mut Obs) -> Result<(), String>,
    ) where
        T: Debug + Serialize + DeserializeOwned,
    {
        if let Some(r) = &self.replay {
            if r.check != name {
                return;
            }
            self.replayed = true;
            let value: T = match bincode::deserialize(&r.bytes) {
                Ok(v) => v,
                Err(e) => {
                    self.errors.push(format!("cannot decode replay input: {e}"));
                    return;
                }
            };
            println!("replaying {}/{name}: {:?}", self.property, value);
            match watched(0, name, &value, || test(&value, &mut Obs::default())) {
                Ok(()) => println!("holds on this input"),
                Err(e) => {
                    println!("fails: {e}");
                    self.violations.push((name.to_string(), e));
                }
            }
            return;
        }
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        let mut evaluations = 0u64;
        let mut distinct = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut taken = 0;
        for value in cases {
            let mut obs = Obs::default();
            evaluations += 1;
            let outcome = watched(0, name, &value, || test(&value, &mut obs));
            let bytes = bincode::serialize(&value).unwrap_or_default();
            for l in &obs.labels {
                *labels.entry(l.to_string()).or_default() += 1;
            }
            if obs.nontrivial {
                distinct.insert(hash64(&bytes));
                if taken < 2 {
                    taken += 1;
                    self.samples.push(
                        serde_json::json!({"check": name, "case": truncate(format!("{value:?}"), 700)}),
                    );
                }
            }
            if let Err(e) = outcome {
                self.record_violation(name, &e, &bytes, &format!("{value:?}"));
                break;
            }
        }
        self.evaluations += evaluations;
        self.distinct += distinct.len() as u64;
        println!(
            "  {:<34} {:>8} cases {:>8} distinct non-trivial  (enumerated)",
            name,
            evaluations,
            distinct.len()
        );
        self.checks.push(serde_json::json!({
            "name": name, "evaluations": evaluations, "enumerated": true,
            "distinct_nontrivial": distinct.len(), "classes": labels,
        }));
    }

    fn record_violation(&mut self, name: &str, msg: &str, bytes: &[u8], dbg: &str) {
        let path = write_replay(&self.root, &self.property, name, msg, bytes, dbg, self.seed);
        println!("  {name}: {}", truncate(msg.to_string(), 2000));
        println!("  minimal input: {}", truncate(dbg.to_string(), 2000));
        self.violations
            .push((name.to_string(), path.display().to_string()));
    }

    /// Writes the evidence and says how it went. Returns the exit code.
    pub fn finish(mut self) -> i32 {
        if self.replay.is_some() {
            if !self.replayed {
                println!("error: the replay file names no check of {}", self.property);
                return 2;
            }
            for e in &self.errors {
                println!("error: {e}");
            }
            return if !self.errors.is_empty() {
                2
            } else if self.violations.is_empty() {
                0
            } else {
                1
            };
        }
        if self.evaluations == 0 && self.errors.is_empty() {
            self.errors.push("nothing was evaluated".into());
        }
        let wall = self.start.elapsed().as_secs_f64();
        let evidence = serde_json::json!({
            "property": self.property,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rules.join(" "),
                "samples": self.samples,
                "checks": self.checks,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.violations.len(),
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.property));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()) {
            self.errors.push(format!("cannot write evidence: {e}"));
        }
        for (_, path) in &self.violations {
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        for e in &self.errors {
            println!("error: {e}");
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
            self.property,
            self.evaluations,
            self.distinct,
            self.violations.len(),
            wall
        );
        if !self.violations.is_empty() {
            1
        } else if !self.errors.is_empty() {
            2
        } else {
            0
        }
    }
}

/// Runs the check the command line names.
pub fn drive(table: Vec<(&'static str, fn(&mut Run))>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let Some(id) = args.first() else {
        for (id, _) in &table {
            println!("{id}");
        }
        return;
    };
    let Some((_, f)) = table.into_iter().find(|(n, _)| n == id) else {
        println!("error: unknown property {id}");
        std::process::exit(2);
    };
    let mut run = Run::new(id, root, thorough, seed);
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let doc: serde_json::Value = serde_json::from_str(&text).expect("replay JSON");
        let hex = doc["input_bincode"].as_str().expect("input_bincode");
        let bytes = (0..hex.len() / 2)
            .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex"))
            .collect();
        run.replay = Some(Replay {
            check: doc["check"].as_str().expect("check").to_string(),
            bytes,
        });
    }
    install_panic_hook();
    start_monitor(id, &run.root, seed, thorough, run.replay.is_some());
    // A run that does not end is an error of the check, not an answer.
    let limit = if thorough { 6 * 3600 } else { 780 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        println!("error: still running after {limit} s");
        std::process::exit(3);
    });
    f(&mut run);
    let code = run.finish();
    std::process::exit(code);
}

// ---- comparison helpers -----------------------------------------------------------------

/// |a - b| within abs + rel * max(|a|, |b|); NaN is never close, equal infinities are.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn need_close(what: &str, got: f64, want: f64, rel: f64, abs: f64) -> Result<(), String> {
    if close(got, want, rel, abs) {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

/// Smallest difference between two angles in degrees.
pub fn circ_diff(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}

#[macro_export]
macro_rules! need {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond {
            return Err(format!($($fmt)+));
        }
    };
}

#[macro_export]
macro_rules! need_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b));
        }
    }};
}
