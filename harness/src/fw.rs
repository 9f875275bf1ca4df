//! Small property-testing framework: proptest strategies for generation and shrinking, a fixed
//! number of worker threads with derived seeds, evidence and replay files.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;

#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Info {
    pub fn nt(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, on: bool, l: &str) -> Self {
        if on {
            self.labels.push(l.to_string());
        }
        self
    }
}
pub type CheckResult = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn last_panic() -> String {
    ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or_default()
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if !s.contains("a scoped thread panicked") {
            *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(s.clone());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

/// Run `f`, turning a panic into Err(description).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let msg = LAST_PANIC.with(|p| p.borrow_mut().take());
            let msg = msg.unwrap_or_else(|| {
                if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".into()
                }
            });
            Err(format!("panic: {msg}"))
        }
    }
}

pub struct Violation {
    pub sub: String,
    pub case: Value,
    pub msg: String,
}

pub enum Mode {
    Search,
    Replay { sub: String, case: Value },
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub mode: Mode,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    start: Instant,
    evals: AtomicU64,
    nontriv: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    labels: Mutex<BTreeMap<String, u64>>,
    subs: Mutex<Vec<Value>>,
    rules: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    pub violation: Mutex<Option<Violation>>,
    known: Vec<(String, String)>, // (signature, text) of this property
    known_hit: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    pub replay_hit: AtomicBool,
    pub scale: f64,
}

static SCRATCH_N: AtomicUsize = AtomicUsize::new(0);

pub struct TmpDir(pub PathBuf);
impl Drop for TmpDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

impl Ctx {
    pub fn new(id: &str, tier: &str, seed: u64, mode: Mode, verif: PathBuf, level_known: &Value) -> Ctx {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let scratch = PathBuf::from(format!("{base}/vh-{}-{}", id, std::process::id()));
        let _ = std::fs::create_dir_all(&scratch);
        let mut known = vec![];
        if let Some(a) = level_known.get("known").and_then(|v| v.as_array()) {
            for k in a {
                if k["property"].as_str() == Some(id) {
                    known.push((
                        k["signature"].as_str().unwrap_or("").to_string(),
                        k["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
        let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Ctx {
            id: id.into(),
            tier: tier.into(),
            seed,
            mode,
            verif,
            scratch,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            nontriv: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            labels: Mutex::new(BTreeMap::new()),
            subs: Mutex::new(vec![]),
            rules: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            violation: Mutex::new(None),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            replay_hit: AtomicBool::new(false),
            scale,
        }
    }
    pub fn tmp(&self) -> TmpDir {
        let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
        let p = self.scratch.join(format!("t{n}"));
        std::fs::create_dir_all(&p).expect("scratch dir");
        TmpDir(p)
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let b = if self.tier == "thorough" { thorough } else { quick };
        ((b as f64 * self.scale) as u64).max(8)
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    pub fn violated(&self) -> bool {
        self.violation.lock().unwrap().is_some()
    }

    fn record(&self, sub: &str, case: &impl Serialize, info: &Info, nt_count: &AtomicU64) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if !info.labels.is_empty() {
            let mut l = self.labels.lock().unwrap();
            for x in &info.labels {
                *l.entry(format!("{sub}/{x}")).or_insert(0) += 1;
            }
        }
        if info.nontrivial {
            let k = nt_count.fetch_add(1, Ordering::Relaxed);
            let s = serde_json::to_string(case).unwrap_or_default();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            sub.hash(&mut h);
            s.hash(&mut h);
            self.nontriv.lock().unwrap().insert(h.finish());
            if k < 2 {
                let mut sm = self.samples.lock().unwrap();
                if sm.len() < 12 {
                    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
                    sm.push(json!({"sub": sub, "case": v, "labels": info.labels}));
                }
            }
        }
    }

    /// Is this failure message a listed known finding?
    fn is_known(&self, msg: &str) -> bool {
        if let Some(rest) = msg.strip_prefix("KF:") {
            if let Some((sig, _)) = rest.split_once(' ') {
                if self.known.iter().any(|(s, _)| s == sig) {
                    *self.known_hit.lock().unwrap().entry(sig.to_string()).or_insert(0) += 1;
                    return true;
                }
            }
        }
        false
    }

    /// Random search over `strat` with shrinking.
    pub fn sub<C, S, F>(&self, name: &str, rule: &str, cases: u64, strat: impl Fn() -> S + Sync, check: F)
    where
        C: Serialize + DeserializeOwned + std::fmt::Debug + Clone,
        S: Strategy<Value = C>,
        F: Fn(&C) -> CheckResult + Sync,
    {
        let run1 = |c: &C| -> CheckResult {
            match no_panic(|| check(c)) {
                Ok(r) => r,
                Err(p) => Err(p),
            }
        };
        if let Mode::Replay { sub, case } = &self.mode {
            if sub == name {
                self.replay_hit.store(true, Ordering::SeqCst);
                match serde_json::from_value::<C>(case.clone()) {
                    Ok(c) => {
                        if let Err(m) = run1(&c) {
                            if !self.is_known(&m) {
                                *self.violation.lock().unwrap() =
                                    Some(Violation { sub: name.into(), case: case.clone(), msg: m });
                            }
                        }
                    }
                    Err(e) => panic!("cannot read replay case: {e}"),
                }
            }
            return;
        }
        if let Ok(only) = std::env::var("VH_SUB") {
            if only != name {
                return;
            }
        }
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        self.rules.lock().unwrap().push(format!("{name}: {rule}"));
        let t0 = Instant::now();
        let nt = AtomicU64::new(0);
        let trace = std::env::var("VH_TRACE").is_ok();
        let before = self.evals.load(Ordering::Relaxed);
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let (nt, run1, strat) = (&nt, &run1, &strat);
                let share = cases / WORKERS + u64::from(w < cases % WORKERS);
                sc.spawn(move || {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (self.seed, self.id.as_str(), name, w).hash(&mut h);
                    let mut seed = [0u8; 32];
                    for i in 0..4 {
                        (i as u64).hash(&mut h);
                        seed[i * 8..i * 8 + 8].copy_from_slice(&h.finish().to_le_bytes());
                    }
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                    let mut runner = TestRunner::new_with_rng(
                        Config { failure_persistence: None, ..Config::default() },
                        rng,
                    );
                    let s = strat();
                    for _ in 0..share {
                        if self.stop.load(Ordering::SeqCst) {
                            return;
                        }
                        let mut tree = s.new_tree(&mut runner).expect("strategy");
                        let c = tree.current();
                        if trace {
                            let _ = std::fs::write(
                                format!("/tmp/vh-trace-{w}.json"),
                                serde_json::json!({"property": self.id, "sub": name, "case": c}).to_string(),
                            );
                        }
                        match run1(&c) {
                            Ok(info) => self.record(name, &c, &info, nt),
                            Err(m) => {
                                if self.is_known(&m) {
                                    self.record(name, &c, &Info::default(), nt);
                                    continue;
                                }
                                if self.stop.swap(true, Ordering::SeqCst) {
                                    return;
                                }
                                // shrink
                                let mut best = (c, m);
                                let t = Instant::now();
                                let mut steps = 0;
                                if tree.simplify() {
                                    loop {
                                        steps += 1;
                                        if steps > 1500 || t.elapsed() > Duration::from_secs(40) {
                                            break;
                                        }
                                        let cur = tree.current();
                                        let more = match run1(&cur) {
                                            Err(m) if !self.is_known(&m) => {
                                                best = (cur, m);
                                                tree.simplify()
                                            }
                                            _ => tree.complicate(),
                                        };
                                        if !more {
                                            break;
                                        }
                                    }
                                }
                                *self.violation.lock().unwrap() = Some(Violation {
                                    sub: name.into(),
                                    case: serde_json::to_value(&best.0).unwrap_or(Value::Null),
                                    msg: best.1,
                                });
                                return;
                            }
                        }
                    }
                });
            }
        });
        self.subs.lock().unwrap().push(json!({
            "sub": name,
            "evaluations": self.evals.load(Ordering::Relaxed) - before,
            "nontrivial": nt.load(Ordering::Relaxed),
            "seconds": t0.elapsed().as_secs_f64(),
        }));
    }

    /// Write evidence and replay, print the verdict, return the exit code.
    pub fn finish(&self, level: &str, out: &mut impl Write) -> i32 {
        let _ = std::fs::remove_dir_all(&self.scratch);
        let replay_mode = matches!(self.mode, Mode::Replay { .. });
        let viol = self.violation.lock().unwrap();
        let mut violations = vec![];
        let mut code = 0;
        for (s, what) in &self.known {
            if self.known_hit.lock().unwrap().contains_key(s) || !replay_mode {
                let _ = writeln!(out, "KNOWN-FINDING: property={} {} ({})", self.id, what, s);
            }
        }
        if let Some(v) = viol.as_ref() {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v.case.to_string().hash(&mut h);
            let dir = self.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{:016x}.json", self.id, v.sub, h.finish()));
            let rep = json!({"property": self.id, "sub": v.sub, "case": v.case, "message": v.msg});
            if !replay_mode {
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
            }
            let _ = writeln!(out, "{}: {} -- {}", self.id, v.sub, v.msg);
            let _ = writeln!(out, "VIOLATION property={} replay={}", self.id, path.display());
            violations.push(json!({"sub": v.sub, "message": v.msg, "replay": path}));
            code = 1;
        }
        if replay_mode {
            if !self.replay_hit.load(Ordering::SeqCst) {
                let _ = writeln!(out, "replay: no such sub-check");
                return 2;
            }
            if code == 0 {
                let _ = writeln!(out, "replay: the case passes");
            }
            return code;
        }
        let ev = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "evaluations": self.evals.load(Ordering::Relaxed),
                "distinct_nontrivial": self.nontriv.lock().unwrap().len(),
                "rule": self.rules.lock().unwrap().join(" | "),
                "samples": *self.samples.lock().unwrap(),
                "sub_checks": *self.subs.lock().unwrap(),
                "classes": *self.labels.lock().unwrap(),
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "violations": violations,
            "known_findings_hit": *self.known_hit.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .is_err()
        {
            return 2;
        }
        let _ = writeln!(
            out,
            "{} {}: {} cases, {} distinct non-trivial, {:.1}s{}",
            self.id,
            self.tier,
            self.evals.load(Ordering::Relaxed),
            self.nontriv.lock().unwrap().len(),
            self.start.elapsed().as_secs_f64(),
            if code == 0 { ", held" } else { "" }
        );
        code
    }
}

/// Point fds 1 and 2 at /dev/null (the library prints a lot) and return the real stdout.
pub fn capture_stdio() -> std::fs::File {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        if std::env::var("VH_STDERR").is_err() {
            libc::dup2(null, 2);
        }
        libc::close(null);
        std::fs::File::from_raw_fd(keep)
    }
}
