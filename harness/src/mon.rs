//! The monitoring framework: cases, verdicts, event counting, evidence, replay.
//!
//! A *workload* is a function from a case index and a seeded RNG to a verdict. Every case runs
//! under a panic monitor. `Err(..)` or a panic raised inside the code under test is a violation;
//! a panic raised inside the harness itself is a harness error (exit 2, never a violation).

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use serde_json::{json, Value as Json};

pub type Rng = ChaCha20Rng;
/// A verdict on one case: `Err` carries the description of what was violated.
pub type Verdict = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static PANIC_EXPECTED: RefCell<bool> = RefCell::new(false);
}

/// Installs a panic hook that records where a panic came from instead of printing it.
pub fn install_panic_monitor() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let worker = std::thread::current().name().map(|n| n.starts_with("mon-")).unwrap_or(false)
            || std::thread::current().name() == Some("main");
        if !worker && std::env::var_os("MON_DEBUG").is_some() {
            eprintln!("panic on helper thread at {}: {}", loc, msg);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs `f`, reporting a panic as `Err((location, message))`.
pub fn watch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| ("<other thread>".into(), "<panic on another thread>".into()))
    })
}

/// Unwraps a result the code under test must provide; its absence is a violation, not a harness
/// error.
pub fn sut<T>(o: impl Into<Option<T>>, what: &str) -> T {
    match o.into() {
        Some(t) => t,
        None => panic!("SUT: {}", what),
    }
}

fn in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

struct State {
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, BTreeSet<u64>>,
    samples: BTreeMap<String, Vec<String>>,
    violations: Vec<Json>,
    harness_errors: Vec<String>,
    evaluations: u64,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    started: Instant,
    deadline: Instant,
    stop: AtomicBool,
    state: Mutex<State>,
    replay: Option<(String, u64)>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    required: Mutex<Vec<(String, u64)>>,
}

pub fn hash64(data: &[u8]) -> u64 {
    let h = blake2b_simd::Params::new().hash_length(8).hash(data);
    u64::from_le_bytes(h.as_bytes().try_into().unwrap())
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, budget: Duration, replay: Option<(String, u64)>) -> Self {
        let threads = std::env::var("MON_THREADS")
            .ok()
            .and_then(|t| t.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        Ctx {
            id: id.into(),
            tier,
            seed,
            threads,
            started: Instant::now(),
            deadline: Instant::now() + budget,
            stop: AtomicBool::new(false),
            state: Mutex::new(State {
                counters: BTreeMap::new(),
                sets: BTreeMap::new(),
                samples: BTreeMap::new(),
                violations: vec![],
                harness_errors: vec![],
                evaluations: 0,
            }),
            replay,
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            required: Mutex::new(vec![]),
        }
    }

    /// `q` cases in the quick tier, `t` in the thorough tier.
    pub fn n(&self, q: u64, t: u64) -> u64 {
        match self.tier {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }

    pub fn rule(&self, r: &str) {
        *self.rule.lock().unwrap() = r.to_string();
    }

    pub fn assume(&self, a: &str) {
        self.assumptions.lock().unwrap().push(a.to_string());
    }

    /// Declares that the event `name` must have been observed at least `n` times for the run to
    /// count as an observation of the property at all.
    pub fn require(&self, name: &str, n: u64) {
        self.required.lock().unwrap().push((name.into(), n));
    }

    /// Counts an observed event.
    pub fn event(&self, name: &str) {
        self.events(name, 1)
    }

    pub fn events(&self, name: &str, n: u64) {
        let mut s = self.state.lock().unwrap();
        *s.counters.entry(name.to_string()).or_insert(0) += n;
    }

    /// Records a distinct, non-trivial situation (by hash).
    pub fn distinct(&self, set: &str, data: &[u8]) {
        let h = hash64(data);
        let mut s = self.state.lock().unwrap();
        s.sets.entry(set.to_string()).or_default().insert(h);
    }

    /// Records one actual case in readable form (the first few per label are kept).
    pub fn sample(&self, label: &str, f: impl FnOnce() -> String) {
        let mut s = self.state.lock().unwrap();
        let v = s.samples.entry(label.to_string()).or_default();
        if v.len() < 2 {
            v.push(f());
        }
    }

    fn case_rng(&self, workload: &str, case: u64) -> Rng {
        let h = blake2b_simd::Params::new()
            .hash_length(32)
            .personal(b"orchard-mon-case")
            .to_state()
            .update(self.id.as_bytes())
            .update(b"/")
            .update(workload.as_bytes())
            .update(b"/")
            .update(&self.seed.to_le_bytes())
            .update(&case.to_le_bytes())
            .finalize();
        Rng::from_seed(h.as_bytes().try_into().unwrap())
    }

    fn violation(&self, workload: &str, case: u64, msg: String) {
        self.stop.store(true, Ordering::SeqCst);
        let mut s = self.state.lock().unwrap();
        s.violations.push(json!({
            "property": self.id, "workload": workload, "case": case, "seed": self.seed,
            "tier": format!("{:?}", self.tier).to_lowercase(), "violation": msg,
        }));
    }

    fn run_case<F>(&self, workload: &str, case: u64, f: &F)
    where
        F: Fn(u64, &mut Rng) -> Verdict + Sync,
    {
        let mut rng = self.case_rng(workload, case);
        let r = watch(|| f(case, &mut rng));
        self.state.lock().unwrap().evaluations += 1;
        match r {
            Ok(Ok(())) => (),
            Ok(Err(msg)) => self.violation(workload, case, msg),
            Err((_, msg)) if msg.starts_with("SUT: ") => self.violation(
                workload,
                case,
                format!("the code under test refused something valid: {}", &msg[5..]),
            ),
            Err((loc, msg)) if in_harness(&loc) => {
                self.stop.store(true, Ordering::SeqCst);
                self.state
                    .lock()
                    .unwrap()
                    .harness_errors
                    .push(format!("{}[{}]: harness panic at {}: {}", workload, case, loc, msg));
            }
            Err((loc, msg)) => self.violation(
                workload,
                case,
                format!("the code under test panicked at {}: {}", loc, msg),
            ),
        }
    }

    /// Runs cases `0..n` of a workload on all threads, until done, a violation, or out of budget.
    pub fn run<F>(&self, workload: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng) -> Verdict + Sync,
    {
        self.run_on(self.threads, workload, n, f)
    }

    /// Cases that build what later workloads need: run even when replaying another workload.
    pub fn setup<F>(&self, threads: usize, workload: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng) -> Verdict + Sync,
    {
        self.run_cases(threads, workload, n, f)
    }

    /// As `run`, one case at a time (for cases that use all cores themselves).
    pub fn run_seq<F>(&self, workload: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng) -> Verdict + Sync,
    {
        self.run_on(1, workload, n, f)
    }

    pub fn run_on<F>(&self, threads: usize, workload: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng) -> Verdict + Sync,
    {
        if let Some((w, c)) = &self.replay {
            if w == workload {
                self.run_case(workload, *c, &f);
            }
            return;
        }
        self.run_cases(threads, workload, n, f)
    }

    fn run_cases<F>(&self, threads: usize, workload: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng) -> Verdict + Sync,
    {
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let next = &next;
        let f = &f;
        std::thread::scope(|s| {
            for t in 0..threads.min(n.max(1) as usize) {
                std::thread::Builder::new()
                    .name(format!("mon-{}", t))
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if i >= n || self.stop.load(Ordering::SeqCst) || Instant::now() > self.deadline {
                            break;
                        }
                        self.run_case(workload, i, f);
                    })
                    .expect("spawn worker");
            }
        });
        let done = (next.load(Ordering::SeqCst) as u64).min(n);
        let mut s = self.state.lock().unwrap();
        *s.counters.entry(format!("cases:{}", workload)).or_insert(0) += done;
        if std::env::var_os("MON_DEBUG").is_some() {
            eprintln!("{} {}: {} of {} cases in {:.1?}", self.id, workload, done, n, t0.elapsed());
        }
    }

    /// Ends the run: writes evidence, prints the verdict, returns the exit code.
    pub fn finish(self, evidence_dir: &str) -> i32 {
        let wall = self.started.elapsed().as_secs_f64();
        let s = self.state.into_inner().unwrap();
        let required = self.required.into_inner().unwrap();
        let mut distinct = 0u64;
        let sets: BTreeMap<_, _> = s
            .sets
            .iter()
            .map(|(k, v)| {
                distinct += v.len() as u64;
                (k.clone(), v.len())
            })
            .collect();
        let samples: Vec<_> = s
            .samples
            .iter()
            .flat_map(|(k, v)| v.iter().map(move |x| json!({"kind": k, "case": x})))
            .collect();
        let mut missing = vec![];
        if self.replay.is_none() && s.violations.is_empty() && s.harness_errors.is_empty() {
            for (name, n) in &required {
                let got = s
                    .counters
                    .get(name)
                    .copied()
                    .or_else(|| sets.get(name).map(|n| *n as u64))
                    .unwrap_or(0);
                if got < *n {
                    missing.push(format!("{} (observed {}, need {})", name, got, n));
                }
            }
        }
        let evidence = json!({
            "property": self.id,
            "tier": format!("{:?}", self.tier).to_lowercase(),
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": s.evaluations,
                "distinct_nontrivial": distinct,
                "rule": *self.rule.lock().unwrap(),
                "samples": samples,
                "observed_events": s.counters,
                "distinct_by_kind": sets,
                "not_observed": missing,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": wall,
            "violations": s.violations.len(),
        });
        if self.replay.is_none() {
            std::fs::create_dir_all(evidence_dir).expect("evidence dir");
            std::fs::write(
                format!("{}/{}.json", evidence_dir, self.id),
                serde_json::to_string_pretty(&evidence).unwrap() + "\n",
            )
            .expect("write evidence");
        }
        for e in &s.harness_errors {
            eprintln!("HARNESS-ERROR property={} {}", self.id, e);
        }
        if let Some(v) = s.violations.first() {
            let dir = format!("{}/replay", evidence_dir);
            std::fs::create_dir_all(&dir).expect("replay dir");
            let path = format!("{}/{}-{}.json", dir, self.id, self.seed);
            std::fs::write(&path, serde_json::to_string_pretty(v).unwrap() + "\n").expect("write replay");
            println!(
                "{} workload={} case={} seed={}: {}",
                self.id,
                v["workload"].as_str().unwrap_or(""),
                v["case"],
                self.seed,
                v["violation"].as_str().unwrap_or("")
            );
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        if !s.harness_errors.is_empty() {
            return 2;
        }
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={}: too little was observed: {}", self.id, missing.join("; "));
            return 3;
        }
        println!(
            "HELD property={} evaluations={} distinct={} wall={:.1}s",
            self.id, s.evaluations, distinct, wall
        );
        0
    }
}

/// Checks a condition, turning its failure into a violation.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($m:tt)*) => {
        if !($c) {
            return Err(format!($($m)*));
        }
    };
}

/// Checks equality, turning a difference into a violation.
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
        }
    }};
}
