//! Monitoring framework: seeded workloads, recorded events, an oracle's
//! verdicts, known findings, evidence and replay files.
use std::{
    collections::{BTreeMap, HashSet},
    future::Future,
    hash::{Hash, Hasher},
    io::Write,
    panic::AssertUnwindSafe,
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

use rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

pub mod util;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub location: String,
    pub message: String,
    pub thread: String,
}

static PANICS: OnceLock<Mutex<Vec<PanicRec>>> = OnceLock::new();

fn panics() -> &'static Mutex<Vec<PanicRec>> {
    PANICS.get_or_init(|| Mutex::new(vec![]))
}

/// The workloads unwrap the results of operations which the code never refuses: if one does, this
/// is a failure of the code under test, unless the machine is the reason.
fn operation_failed(p: &PanicRec) -> bool {
    let m = p.message.to_lowercase();
    is_harness(&p.location)
        && m.contains("unwrap()`")
        && !["os {", "os error", "address already", "no space", "too many open", "poison", "receiveerror", "recverror"].iter().any(|e| m.contains(e))
}

/// Returns and clears all panics seen since the last call, from any thread or task.
pub fn take_panics() -> Vec<PanicRec> {
    std::mem::take(&mut *panics().lock().unwrap_or_else(|e| e.into_inner()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var("MON_PANIC").is_ok() {
            eprintln!(
                "panic at {location}: {message}\n{}",
                std::backtrace::Backtrace::force_capture()
            );
        }
        panics()
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push(PanicRec {
                location,
                message,
                thread: std::thread::current().name().unwrap_or("").into(),
            });
    }));
}

/// A panic that unwinds because the harness itself is wrong.
fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") && !loc.contains("/repo/")
}

pub struct Violation {
    pub sig: String,
    pub detail: Value,
    pub case: String,
}

pub struct Mon {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    evaluations: u64,
    distinct: HashSet<u64>,
    rule: String,
    samples: Vec<Value>,
    events: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    pub case: String,
    pub level: &'static str,
    assumptions: Vec<String>,
    only_case: Option<String>,
    required: Vec<(String, u64)>,
    reports: u64,
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .unwrap_or("/verif".into())
        .into()
}

impl Mon {
    fn new(prop: &str) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let known = std::fs::read_to_string(verif_dir().join("known_findings.jsonl"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .filter(|v| v["property"] == prop && v["status"] == "known")
            .map(|v| {
                (
                    v["signature"].as_str().unwrap_or("").to_string(),
                    v["what"].as_str().unwrap_or("").to_string(),
                )
            })
            .collect();
        Self {
            prop: prop.into(),
            tier,
            seed,
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            rule: String::new(),
            samples: vec![],
            events: BTreeMap::new(),
            violations: vec![],
            known,
            known_hit: BTreeMap::new(),
            case: String::new(),
            level: "exploration",
            assumptions: vec![],
            only_case: std::env::var("MON_CASE").ok(),
            required: vec![],
            reports: 0,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Number of cases: the quick count, or the thorough one.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    /// A deterministic random source for one named case.
    pub fn rng(&self, name: &str) -> StdRng {
        let mut h = Sha256::new();
        h.update(self.prop.as_bytes());
        h.update(self.seed.to_le_bytes());
        h.update(name.as_bytes());
        StdRng::from_seed(h.finalize().into())
    }

    /// Starts a case. Returns None if the case is filtered out by MON_CASE
    /// or if enough violations have been collected.
    pub fn begin(&mut self, name: String) -> Option<StdRng> {
        if let Some(only) = &self.only_case {
            if only != &name {
                return None;
            }
        }
        if self.violations.len() >= 5 || self.reports >= 40 {
            return None;
        }
        self.case = name;
        self.evaluations += 1;
        progress_reset(&format!("{} {}", self.prop, self.case));
        Some(self.rng(&self.case))
    }

    /// Marks the current case as non-trivial with the given fingerprint.
    pub fn nontrivial<T: Hash>(&mut self, t: T) {
        self.distinct.insert(hash64(&t));
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 4 {
            self.samples.push(json!({"case": self.case, "observed": v}));
        }
    }

    pub fn count(&mut self, ev: &str, n: u64) {
        *self.events.entry(ev.into()).or_insert(0) += n;
    }

    pub fn rule(&mut self, rule: &str) {
        self.rule = rule.into();
    }

    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.into());
    }

    /// The run is meaningless if this event was observed fewer than n times.
    pub fn require(&mut self, ev: &str, n: u64) {
        self.required.push((ev.into(), n));
    }

    pub fn failed(&self) -> bool {
        self.violations.len() > 0
    }

    pub fn violation(&mut self, sig: &str, detail: Value) {
        if let Some((s, _)) = self.known.iter().find(|(s, _)| s == sig) {
            *self.known_hit.entry(s.clone()).or_insert(0) += 1;
            return;
        }
        // Cases which hang take long: stop early.
        let stuck = sig.contains("stuck") || sig.contains("deadlock") || sig.contains("stalled");
        self.reports += if stuck { 20 } else { 1 };
        if self
            .violations
            .iter()
            .filter(|v| v.sig == sig)
            .count()
            < 1
        {
            self.violations.push(Violation {
                sig: sig.into(),
                detail,
                case: self.case.clone(),
            });
        }
    }

    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        *self.events.entry("oracle_checks".into()).or_insert(0) += 1;
        if !ok {
            let d = detail();
            self.violation(sig, d);
        }
        ok
    }

    /// Turns panics in the code under test into violations of this property.
    pub fn check_panics(&mut self, what: &str) {
        for p in take_panics() {
            if is_harness(&p.location) && !operation_failed(&p) {
                eprintln!("HARNESS PANIC {} {}", p.location, p.message);
                std::process::exit(3);
            }
            // Name the file and not the line, so that the signature stays valid when lines move.
            let file = p
                .location
                .rsplit_once(':')
                .map(|(f, _)| f.trim_start_matches("/repo/").to_string())
                .unwrap_or_default();
            self.violation(
                &format!("panic:{what}:{file}:{}", first_words(&p.message)),
                json!({"panic": p.message, "at": p.location}),
            );
        }
    }

    fn finish(mut self) -> i32 {
        progress_stop();
        if self.violations.is_empty() && self.only_case.is_none() {
            for (ev, n) in self.required.clone() {
                let got = self.events.get(&ev).cloned().unwrap_or(0);
                if got < n {
                    eprintln!(
                        "INCONCLUSIVE property={} event {ev} observed {got} < {n} times",
                        self.prop
                    );
                    self.write_evidence();
                    return 4;
                }
            }
        }
        self.write_evidence();
        for (sig, n) in &self.known_hit {
            let what = &self.known.iter().find(|(s, _)| s == sig).unwrap().1;
            println!(
                "KNOWN-FINDING: property={} {} [{}; seen {} times]",
                self.prop, what, sig, n
            );
        }
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        for (i, v) in self.violations.iter().enumerate() {
            let path = dir.join(format!("{}-{}.json", self.prop, i));
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": self.prop,
                    "signature": v.sig,
                    "seed": self.seed,
                    "tier": self.tier_str(),
                    "case": v.case,
                    "detail": v.detail,
                    "replay": format!("cd /verif && VERIF_SEED={} VERIF_TIER={} MON_CASE='{}' ./check.sh {}",
                        self.seed, self.tier_str(), v.case, self.prop),
                }))
                .unwrap(),
            );
            println!(
                "VIOLATION property={} replay={} {} case={}",
                self.prop,
                path.display(),
                v.sig,
                v.case
            );
            let d = v.detail.to_string();
            println!("  {}", d.chars().take(600).collect::<String>());
        }
        println!(
            "{} {} seed={} evaluations={} distinct={} violations={} known={} wall={:.1}s",
            self.prop,
            self.tier_str(),
            self.seed,
            self.evaluations,
            self.distinct.len(),
            self.violations.len(),
            self.known_hit.len(),
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::io::stdout().flush();
        self.violations.is_empty().then_some(0).unwrap_or(1)
    }

    fn tier_str(&self) -> &'static str {
        if self.quick() {
            "quick"
        } else {
            "thorough"
        }
    }

    fn write_evidence(&mut self) {
        if self.samples.is_empty() {
            self.samples
                .push(json!({"case": self.case, "observed": "no sample recorded"}));
        }
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let ev = json!({
            "property": self.prop,
            "tier": self.tier_str(),
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct.len(),
                "rule": self.rule,
                "samples": self.samples,
                "events": self.events,
            },
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.iter()
                .map(|v| json!({"signature": v.sig, "case": v.case})).collect::<Vec<_>>(),
            "known_findings_seen": self.known_hit,
            "assumptions": self.assumptions,
        });
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        ) {
            eprintln!("couldn't write evidence: {e}");
        }
    }
}

pub fn first_words(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_ascii_digit() { 'n' } else if c.is_alphanumeric() { c } else { '_' })
        .take(40)
        .collect()
}

// Progress watchdog: every case must end within a generous bound. Its firing is
// decided on CPU time and wall time, see `Mon::bounded`; for the whole run it is
// inconclusive and ends with exit code 5.
static PROGRESS: OnceLock<Mutex<(Instant, String, bool)>> = OnceLock::new();

fn progress_reset(name: &str) {
    let p = PROGRESS.get_or_init(|| Mutex::new((Instant::now(), String::new(), true)));
    *p.lock().unwrap() = (Instant::now(), name.into(), true);
}

fn progress_stop() {
    if let Some(p) = PROGRESS.get() {
        p.lock().unwrap().2 = false;
    }
}

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(5));
        if let Some(p) = PROGRESS.get() {
            let g = p.lock().unwrap();
            if g.2 && g.0.elapsed() > Duration::from_secs(600) {
                eprintln!("INCONCLUSIVE watchdog: no progress in case {}", g.1);
                std::process::exit(5);
            }
        }
    });
}

/// How a bounded execution ended.
pub enum Bounded<T> {
    Done(T),
    Panicked,
    /// Still running after having burned the CPU-seconds given, or blocked.
    Stuck(String),
}

fn thread_cpu(tid: i64) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s
        .rsplit_once(')')
        .map(|x| x.1.split_whitespace().collect())
        .unwrap_or_default();
    if f.len() < 13 {
        return 0.;
    }
    (f[11].parse::<f64>().unwrap_or(0.) + f[12].parse::<f64>().unwrap_or(0.)) / 100.
}

/// Runs a synchronous, normally very short, piece of work on its own thread.
/// It is stuck when it used more than `cpu_s` seconds of CPU time itself, or when
/// `20 * cpu_s` seconds went by (then it waits for something that never comes).
/// A stuck thread is leaked.
pub fn bounded<T: Send + 'static>(cpu_s: f64, f: impl FnOnce() -> T + Send + 'static) -> Bounded<T> {
    let tid = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let res: Arc<Mutex<Option<T>>> = Arc::new(Mutex::new(None));
    let (tid2, done2, res2) = (tid.clone(), done.clone(), res.clone());
    let h = std::thread::Builder::new()
        .name("bounded".into())
        .stack_size(16 << 20)
        .spawn(move || {
            let me = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().and_then(|f| f.to_str()?.parse::<u64>().ok()))
                .unwrap_or(0);
            tid2.store(me, Ordering::SeqCst);
            let r = std::panic::catch_unwind(AssertUnwindSafe(f));
            if let Ok(r) = r {
                *res2.lock().unwrap() = Some(r);
            }
            done2.store(true, Ordering::SeqCst);
        })
        .unwrap();
    let start = Instant::now();
    let mut pause = 20u64;
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause * 2).min(20_000);
        if start.elapsed().as_secs_f64() > cpu_s {
            let used = thread_cpu(tid.load(Ordering::SeqCst) as i64);
            if used > cpu_s {
                return Bounded::Stuck(format!("used {used:.1}s of CPU time and still running"));
            }
            if start.elapsed().as_secs_f64() > 20. * cpu_s {
                return Bounded::Stuck(format!(
                    "no result after {:.1}s, {used:.1}s of them on the CPU",
                    start.elapsed().as_secs_f64()
                ));
            }
        }
    }
    let _ = h.join();
    let r = res.lock().unwrap().take();
    match r {
        Some(r) => Bounded::Done(r),
        None => Bounded::Panicked,
    }
}

/// A multi-threaded runtime.
pub fn rt_multi(workers: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(workers)
        .enable_all()
        .build()
        .unwrap()
}

/// A single-threaded runtime on real time.
pub fn rt_current() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap()
}

/// A single-threaded runtime on virtual time, which advances only when all tasks wait.
pub fn rt_paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap()
}

/// Runs the future on the runtime; None if it didn't end in the given time.
pub fn drive<T>(rt: &tokio::runtime::Runtime, secs: u64, f: impl Future<Output = T>) -> Option<T> {
    rt.block_on(async { tokio::time::timeout(Duration::from_secs(secs), f).await.ok() })
}

/// The entry point of every binary: `f` gets the monitor and the id of the property.
pub fn main_with(f: impl FnOnce(&mut Mon, &str)) {
    let prop = std::env::args().nth(1).expect("property id");
    if std::env::var("MON_LOG").is_ok() {
        flarch::start_logging_filter_level(vec![], log::LevelFilter::Trace);
    }
    install_hook();
    watchdog();
    let mut mon = Mon::new(&prop);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&mut mon, &prop)));
    if r.is_err() {
        // The workload's own thread panicked: either in the code under test, or in the harness.
        let ps = take_panics();
        for p in &ps {
            eprintln!("main thread panicked: {} {}", p.location, p.message);
        }
        match ps.last() {
            Some(p) if operation_failed(p) || !is_harness(&p.location) && p.location.contains("/repo/") => {
                let file = p.location.rsplit_once(':').unwrap().0.to_string();
                mon.violation(
                    &format!(
                        "panic:main:{}:{}",
                        file.trim_start_matches("/repo/"),
                        first_words(&p.message)
                    ),
                    json!({"panic": p.message, "at": p.location}),
                );
            }
            _ => {
                eprintln!("INCONCLUSIVE harness error in case {}", mon.case);
                std::process::exit(3);
            }
        }
    }
    let code = mon.finish();
    // Don't wait for leaked tasks and threads.
    std::process::exit(code);
}
