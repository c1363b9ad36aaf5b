//! Runner: corpus, directed cases, seeded random search with shrinking, replay, evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use sha2::{Digest, Sha256};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub enum Fail {
    /// `sig` identifies the failure (for known findings), `msg` explains it
    Violation { sig: String, msg: String },
    /// the harness itself is at fault
    Harness(String),
}

pub type PResult = Result<(), Fail>;

pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation { sig: sig.into(), msg: msg.into() })
}
pub fn harness<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Harness(msg.into()))
}

/// What one case reports about itself.
pub struct Cx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub tier: Tier,
    /// scratch directory of this worker
    pub dir: PathBuf,
    pub case_no: u64,
}

impl Cx {
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub trait Prop: Sync {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    const SHRINK_ITERS: u32 = 3000;
    const WORKERS: usize = 8;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(&self, tier: Tier) -> u32;
    /// finite sub-spaces that are enumerated in full before the random search
    fn directed(&self, _tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn run(&self, case: &Self::Case, cx: &mut Cx) -> PResult;
}

thread_local! {
    static PANIC: RefCell<Option<(String, String, String)>> = const { RefCell::new(None) };
    pub static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_case = IN_CASE.with(|c| *c.borrow());
        if !in_case {
            old(info);
            return;
        }
        let p: &dyn Any = info.payload();
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        PANIC.with(|c| *c.borrow_mut() = Some((msg, loc, bt)));
    }));
}

/// Runs `f`; a panic raised by the code under test is a violation, one raised by the harness is not.
pub fn guarded(f: impl FnOnce() -> PResult) -> PResult {
    IN_CASE.with(|c| *c.borrow_mut() = true);
    PANIC.with(|c| *c.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| *c.borrow_mut() = false);
    match r {
        Ok(r) => r,
        Err(_) => {
            let (msg, loc, bt) = PANIC.with(|c| c.borrow_mut().take()).unwrap_or_default();
            if msg.starts_with("SPIN") {
                return viol("spin", msg);
            }
            let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or("");
            // the innermost frame that belongs to the harness or to the code under test decides
            let mine = env!("CARGO_MANIFEST_DIR");
            let theirs = if file.starts_with("src/") || file.starts_with(mine) {
                false
            } else if file.starts_with("/repo/") {
                true
            } else {
                bt.lines()
                    .filter_map(|l| l.trim_start().strip_prefix("at "))
                    .filter(|l| !(l.starts_with(mine) && l.contains("src/engine.rs")))
                    .find_map(|l| if l.starts_with("/repo/src") { Some(true) } else if l.starts_with(mine) { Some(false) } else { None })
                    .unwrap_or_else(|| bt.contains("s3_server"))
            };
            if !theirs {
                harness(format!("harness panic at {loc}: {msg}"))
            } else {
                let short: String = Path::new(file).file_name().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
                viol(format!("panic:{short}"), format!("the code panicked at {loc}: {msg}"))
            }
        }
    }
}

#[derive(Clone)]
pub struct Known {
    pub sig: String,
    pub what: String,
}

pub fn load_known(path: &Path, id: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut prop = "";
        let mut sig = "";
        let mut what = rest;
        for _ in 0..2 {
            let (tok, r) = what.split_once(' ').unwrap_or((what, ""));
            if let Some(p) = tok.strip_prefix("property=") {
                prop = p;
            } else if let Some(s) = tok.strip_prefix("sig=") {
                sig = s;
            }
            what = r;
        }
        if prop == id && !sig.is_empty() {
            v.push(Known { sig: sig.into(), what: what.into() });
        }
    }
    v
}

pub struct Env {
    pub base: PathBuf,
    pub seed: u64,
    pub tier: Tier,
    pub corpus: PathBuf,
    pub known: PathBuf,
    pub scale: f64,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known_hits: BTreeMap<String, u64>,
    survey: BTreeMap<String, (u64, String, String)>,
}

fn survey() -> bool {
    static S: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var_os("VH_SURVEY").is_some())
}

fn case_hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub struct Failure {
    pub case_json: String,
    pub sig: String,
    pub msg: String,
}

pub enum Outcome {
    Held,
    Violated(Failure),
    Error(String),
}

struct Shared<'a> {
    stats: Mutex<Stats>,
    stop: AtomicBool,
    failure: Mutex<Option<Failure>>,
    error: Mutex<Option<String>>,
    known: &'a [Known],
    case_no: AtomicU64,
}

fn seed_bytes(seed: u64, id: &str, worker: usize) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(seed.to_le_bytes());
    h.update(id.as_bytes());
    h.update((worker as u64).to_le_bytes());
    h.finalize().into()
}

/// exit status of a judged process that found a case which does not end
pub const HANG: i32 = 77;

/// the cases being run, for the watchdog and (as files) for the parent when this process dies
static SLOTS: [Mutex<Option<Instant>>; 64] = [const { Mutex::new(None) }; 64];

fn enter(env: &Env, worker: usize, js: &str) {
    let _ = std::fs::write(env.base.join(format!("slot-{worker}.json")), js);
    *SLOTS[worker].lock().unwrap() = Some(Instant::now());
}

fn leave(worker: usize) {
    *SLOTS[worker].lock().unwrap() = None;
}

fn watchdog(env: &Env) {
    let base = env.base.clone();
    // cases take milliseconds
    let limit = if env.tier == Tier::Thorough { 180 } else { 90 };
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for (w, s) in SLOTS.iter().enumerate() {
            if s.lock().unwrap().map_or(false, |t| t.elapsed().as_secs() >= limit) {
                let _ = std::fs::write(base.join("hang"), w.to_string());
                std::process::exit(HANG);
            }
        }
    });
}

fn run_one<P: Prop>(p: &P, case: &P::Case, sh: &Shared<'_>, env: &Env, worker: usize, count: bool) -> PResult {
    let no = sh.case_no.fetch_add(1, Ordering::Relaxed);
    let mut cx = Cx { labels: vec![], nontrivial: false, tier: env.tier, dir: env.base.join(format!("w{worker}")), case_no: no };
    let t0 = Instant::now();
    let js = serde_json::to_string(case).unwrap_or_default();
    enter(env, worker, &js);
    let r = guarded(|| p.run(case, &mut cx));
    leave(worker);
    if t0.elapsed().as_secs() >= 20 {
        eprintln!("slow case ({} s): {}", t0.elapsed().as_secs(), js.chars().take(2000).collect::<String>());
    }
    let r = match r {
        // development aid: collect every kind of failure instead of stopping at the first
        Err(Fail::Violation { sig, msg }) if survey() => {
            let mut st = sh.stats.lock().unwrap();
            let e = st.survey.entry(sig).or_insert((0, js.clone(), msg.clone()));
            e.0 += 1;
            if js.len() < e.1.len() {
                e.1 = js.clone();
                e.2 = msg;
            }
            Ok(())
        }
        Err(Fail::Violation { sig, msg }) => {
            if sh.known.iter().any(|k| k.sig == sig) {
                *sh.stats.lock().unwrap().known_hits.entry(sig).or_default() += 1;
                Ok(())
            } else {
                Err(Fail::Violation { sig, msg })
            }
        }
        r => r,
    };
    if count {
        let h = case_hash(&js);
        let mut st = sh.stats.lock().unwrap();
        st.evals += 1;
        for l in &cx.labels {
            *st.classes.entry(l.clone()).or_default() += 1;
        }
        if cx.nontrivial {
            if st.distinct.insert(h) {
                // keep the five non-trivial cases with the smallest hashes: a random but reproducible pick
                if st.samples.len() < 5 || h < st.samples.last().unwrap().0 {
                    let mut short: String = js.chars().take(1500).collect();
                    if short.len() < js.len() {
                        short.push_str("...");
                    }
                    st.samples.push((h, short));
                    st.samples.sort();
                    st.samples.truncate(5);
                }
            }
        }
    }
    r
}

pub fn explore<P: Prop>(p: &P, env: &Env) -> (Outcome, serde_json::Value) {
    install_hook();
    watchdog(env);
    let t0 = Instant::now();
    let known = load_known(&env.known, P::ID);
    let sh = Shared {
        stats: Mutex::default(),
        stop: AtomicBool::new(false),
        failure: Mutex::new(None),
        error: Mutex::new(None),
        known: &known,
        case_no: AtomicU64::new(0),
    };
    for w in 0..P::WORKERS {
        let _ = std::fs::create_dir_all(env.base.join(format!("w{w}")));
    }

    // 1. corpus and directed cases
    let mut fixed: Vec<P::Case> = vec![];
    let mut n_corpus = 0_u64;
    let mut files: Vec<PathBuf> = std::fs::read_dir(env.corpus.join(P::ID)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        match std::fs::read(&f).map_err(|e| e.to_string()).and_then(|b| parse_replay::<P>(&b)) {
            Ok(c) => {
                n_corpus += 1;
                fixed.push(c);
            }
            Err(e) => *sh.error.lock().unwrap() = Some(format!("corpus file {} unreadable: {e}", f.display())),
        }
    }
    let directed = p.directed(env.tier);
    let n_directed = directed.len() as u64;
    fixed.extend(directed);
    let next = AtomicU32::new(0);
    std::thread::scope(|s| {
        for w in 0..P::WORKERS {
            let (sh, fixed, next) = (&sh, &fixed, &next);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                if i >= fixed.len() || sh.stop.load(Ordering::SeqCst) {
                    return;
                }
                report(run_one(p, &fixed[i], sh, env, w, true), &fixed[i], sh);
            });
        }
    });

    // 2. random search
    let total = ((f64::from(p.cases(env.tier))) * env.scale).ceil().max(1.0) as u32;
    if !sh.stop.load(Ordering::SeqCst) {
        std::thread::scope(|s| {
            for w in 0..P::WORKERS {
                let sh = &sh;
                let n = total / P::WORKERS as u32 + u32::from(w < (total as usize % P::WORKERS));
                s.spawn(move || worker(p, sh, env, w, n));
            }
        });
    }

    let st = sh.stats.into_inner().unwrap();
    let failure = sh.failure.into_inner().unwrap();
    let error = sh.error.into_inner().unwrap();
    for k in &known {
        // always reported, so that the list of open defects is visible in every run
        println!("KNOWN-FINDING: property={} {} [sig {} seen {} times in this run]", P::ID, k.what, k.sig, st.known_hits.get(&k.sig).copied().unwrap_or(0));
    }
    for (sig, (n, js, msg)) in &st.survey {
        println!("SURVEY {sig} x{n}\n  case {}\n{}\n", js.chars().take(1500).collect::<String>(), msg.chars().take(2500).collect::<String>());
    }
    let violations = u32::from(failure.is_some());
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": P::RULE,
            "samples": st.samples.iter().map(|(_, s)| serde_json::from_str::<serde_json::Value>(s).unwrap_or_else(|_| serde_json::Value::String(s.clone()))).collect::<Vec<_>>(),
            "corpus_cases": n_corpus,
            "enumerated_cases": n_directed,
            "random_cases_requested": total,
            "classes": st.classes,
            "known_finding_hits": st.known_hits,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let out = if let Some(f) = failure {
        Outcome::Violated(f)
    } else if let Some(e) = error {
        Outcome::Error(e)
    } else {
        Outcome::Held
    };
    (out, ev)
}

fn report<C: Serialize>(r: PResult, case: &C, sh: &Shared<'_>) {
    match r {
        Ok(()) => {}
        Err(Fail::Violation { sig, msg }) => {
            sh.stop.store(true, Ordering::SeqCst);
            let mut g = sh.failure.lock().unwrap();
            if g.is_none() {
                *g = Some(Failure { case_json: serde_json::to_string(case).unwrap_or_default(), sig, msg });
            }
        }
        Err(Fail::Harness(e)) => {
            sh.stop.store(true, Ordering::SeqCst);
            *sh.error.lock().unwrap() = Some(format!("{e}; case {}", serde_json::to_string(case).unwrap_or_default().chars().take(3000).collect::<String>()));
        }
    }
}

fn worker<P: Prop>(p: &P, sh: &Shared<'_>, env: &Env, w: usize, n: u32) {
    let cfg = Config {
        cases: n,
        failure_persistence: None,
        max_shrink_iters: P::SHRINK_ITERS,
        max_shrink_time: 90_000,
        max_local_rejects: 1_000_000,
        max_global_rejects: 1_000_000,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(env.seed, P::ID, w));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let strat = p.strategy(env.tier);
    let failing = std::cell::Cell::new(false);
    let sig0 = RefCell::new(String::new());
    let res = runner.run(&strat, |case| {
        if !failing.get() && sh.stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        match run_one(p, &case, sh, env, w, !failing.get()) {
            Ok(()) => Ok(()),
            Err(Fail::Harness(e)) => {
                if failing.get() {
                    return Ok(()); // a shrink candidate the harness cannot judge
                }
                report(Err(Fail::Harness(e)), &case, sh);
                Ok(())
            }
            Err(Fail::Violation { sig, msg }) => {
                if failing.get() {
                    // stay with the failure that was found
                    if *sig0.borrow() != sig {
                        return Ok(());
                    }
                } else {
                    failing.set(true);
                    *sig0.borrow_mut() = sig.clone();
                    sh.stop.store(true, Ordering::SeqCst);
                }
                Err(TestCaseError::fail(format!("{sig}\u{1}{msg}")))
            }
        }
    });
    match res {
        Ok(()) => {}
        Err(TestError::Fail(reason, case)) => {
            let r = reason.message().to_owned();
            let (sig, msg) = r.split_once('\u{1}').map(|(a, b)| (a.to_owned(), b.to_owned())).unwrap_or((r.clone(), String::new()));
            report(Err(Fail::Violation { sig, msg }), &case, sh);
        }
        Err(TestError::Abort(r)) => {
            sh.stop.store(true, Ordering::SeqCst);
            *sh.error.lock().unwrap() = Some(format!("generator gave up: {r}"));
        }
    }
}

pub fn parse_replay<P: Prop>(b: &[u8]) -> Result<P::Case, String> {
    let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
    let c = v.get("case").cloned().unwrap_or(v);
    serde_json::from_value(c).map_err(|e| e.to_string())
}

pub fn replay<P: Prop>(p: &P, env: &Env, file: &[u8]) -> Outcome {
    install_hook();
    let case = match parse_replay::<P>(file) {
        Ok(c) => c,
        Err(e) => return Outcome::Error(format!("replay file: {e}")),
    };
    let _ = std::fs::create_dir_all(env.base.join("w0"));
    let mut cx = Cx { labels: vec![], nontrivial: false, tier: env.tier, dir: env.base.join("w0"), case_no: 0 };
    watchdog(env);
    enter(env, 0, &serde_json::to_string(&case).unwrap_or_default());
    let r = guarded(|| p.run(&case, &mut cx));
    leave(0);
    println!("classes: {:?} nontrivial: {}", cx.labels, cx.nontrivial);
    match r {
        Ok(()) => Outcome::Held,
        Err(Fail::Harness(e)) => Outcome::Error(e),
        Err(Fail::Violation { sig, msg }) => Outcome::Violated(Failure { case_json: serde_json::to_string(&case).unwrap(), sig, msg }),
    }
}

/// prints generated samples (for judging generators by eye)
pub fn show<P: Prop>(p: &P, env: &Env, n: usize) {
    use proptest::strategy::{Strategy, ValueTree};
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(env.seed, P::ID, 0));
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    let s = p.strategy(env.tier);
    for _ in 0..n {
        let v = s.new_tree(&mut runner).unwrap().current();
        println!("{}", serde_json::to_string(&v).unwrap());
    }
}
