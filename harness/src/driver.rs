//! Runs a property: generates cases with proptest (deterministically from VERIF_SEED), evaluates the
//! oracle on them, shrinks failures, writes the replay file and the evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

use proptest::prelude::Rng;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;

/// The number of workers is fixed, so that a run does not depend on the number of cores.
pub const WORKERS: usize = 8;

// ---------------------------------------------------------------- randomness

/// Convenience layer over proptest's random number generator (the only source of randomness).
pub struct R<'a>(pub &'a mut TestRng);

impl R<'_> {
    pub fn u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability percent/100
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        self.shuffle(&mut p);
        p
    }
}

pub fn rng_from(words: [u64; 4]) -> TestRng {
    let mut seed = [0u8; 32];
    for (i, w) in words.iter().enumerate() {
        seed[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
}

fn hash64(x: impl Hash) -> u64 {
    // SipHash with fixed keys: stable from run to run
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- cases

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    /// Simpler variants of this case, in the order in which they are worth trying.
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_>;
}

/// What a single evaluation tells about the case.
#[derive(Default)]
pub struct Tally {
    pub nontrivial: bool,
    pub labels: Vec<(&'static str, u64)>,
}

impl Tally {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push((l, 1));
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l)
        }
    }
    pub fn count(&mut self, l: &'static str, n: usize) {
        if n > 0 {
            self.labels.push((l, n as u64));
        }
    }
    pub fn nontrivial_if(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

type Gen<C> = Arc<dyn Fn(&mut R) -> C + Send + Sync>;
type Nth<C> = Arc<dyn Fn(u64) -> C + Send + Sync>;

pub enum Source<C> {
    Random(Gen<C>),
    /// enumerates a finite space completely
    All(Nth<C>),
}

pub struct Stratum<C> {
    pub name: &'static str,
    pub cases: u64,
    pub source: Source<C>,
}

pub fn random<C>(
    name: &'static str,
    cases: u64,
    f: impl Fn(&mut R) -> C + Send + Sync + 'static,
) -> Stratum<C> {
    Stratum {
        name,
        cases,
        source: Source::Random(Arc::new(f)),
    }
}

pub fn all<C>(
    name: &'static str,
    count: u64,
    f: impl Fn(u64) -> C + Send + Sync + 'static,
) -> Stratum<C> {
    Stratum {
        name,
        cases: count,
        source: Source::All(Arc::new(f)),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn cases(self, quick: u64, thorough: u64) -> u64 {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub trait Property: Send + Sync + 'static {
    type C: Case;
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const LEVEL: &'static str = "exploration";
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// multiplies the number of random cases
    const SCALE: u64 = 1;
    fn strata(tier: Tier) -> Vec<Stratum<Self::C>>;
    fn check(case: &Self::C, t: &mut Tally) -> Result<(), String>;
}

// ---------------------------------------------------------------- proptest strategy

struct GenStrategy<C> {
    gen: Gen<C>,
}

impl<C> Debug for GenStrategy<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("GenStrategy")
    }
}

struct ShrinkTree<C: Case> {
    best: C,
    cur: C,
    /// index of the next candidate among the shrinks of `best`
    next: usize,
    buffer: std::collections::VecDeque<C>,
}

impl<C: Case> ShrinkTree<C> {
    fn new(c: C) -> Self {
        ShrinkTree {
            best: c.clone(),
            cur: c,
            next: 0,
            buffer: Default::default(),
        }
    }
    fn advance(&mut self) -> bool {
        if self.buffer.is_empty() {
            self.buffer = self.best.shrinks().skip(self.next).take(64).collect();
            self.next += self.buffer.len();
        }
        match self.buffer.pop_front() {
            Some(c) => {
                self.cur = c;
                true
            }
            None => {
                self.cur = self.best.clone();
                false
            }
        }
    }
}

impl<C: Case> ValueTree for ShrinkTree<C> {
    type Value = C;
    fn current(&self) -> C {
        self.cur.clone()
    }
    /// the current case failed
    fn simplify(&mut self) -> bool {
        self.best = self.cur.clone();
        self.next = 0;
        self.buffer.clear();
        self.advance()
    }
    /// the current case passed
    fn complicate(&mut self) -> bool {
        self.advance()
    }
}

impl<C: Case> Strategy for GenStrategy<C> {
    type Tree = ShrinkTree<C>;
    type Value = C;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let c = (self.gen)(&mut R(runner.rng()));
        Ok(ShrinkTree::new(c))
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "(panic)".to_string())
}

/// Runs code under test; Err is the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| payload(&*p))
    })
}

// ---------------------------------------------------------------- running

pub fn scratch() -> PathBuf {
    use std::sync::OnceLock;
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let base = std::env::var_os("FPV_SCRATCH")
            .map(PathBuf::from)
            .unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("fpv-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("cannot create the scratch directory");
        d
    })
    .clone()
}

/// A file in the scratch directory that belongs to this thread.
pub fn scratch_file(tag: &str) -> PathBuf {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    thread_local! {
        static ME: u64 = NEXT.fetch_add(1, Ordering::Relaxed);
    }
    scratch().join(format!("{}-{}", tag, ME.with(|m| *m)))
}

/// Other processes must not stay when the one that has started them is ended.
pub fn ends_with_parent(c: &mut std::process::Command) -> &mut std::process::Command {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    }
}

pub fn remove_scratch() {
    let d = scratch();
    let _ = std::fs::remove_dir_all(d);
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("FPV_VERIF")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map(|s| s as u64)
        .unwrap_or(1)
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

#[derive(Serialize, serde::Deserialize)]
pub struct Replay {
    pub property: String,
    pub stratum: String,
    pub message: String,
    pub case: serde_json::Value,
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    per_stratum: BTreeMap<&'static str, (u64, u64)>,
    samples: BTreeMap<(&'static str, usize), serde_json::Value>,
}

fn truncated(v: &impl Serialize) -> serde_json::Value {
    let s = serde_json::to_string(v).unwrap_or_default();
    if s.len() <= 1500 {
        serde_json::from_str(&s).unwrap()
    } else {
        let mut cut = 1500;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        serde_json::Value::String(format!("{} ... ({} bytes)", &s[..cut], s.len()))
    }
}

pub fn evaluate<P: Property>(case: &P::C, t: &mut Tally) -> Result<(), String> {
    match guard(|| P::check(case, t)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

/// The case that a worker evaluates at the moment, for the watchdog.
struct Running<C> {
    stratum: &'static str,
    since: Instant,
    case: *const C,
    told: bool,
}

// the pointer is used only while the slot is locked, and removed before the case goes away
unsafe impl<C: Sync> Send for Running<C> {}

type Slot<C> = Arc<Mutex<Option<Running<C>>>>;

/// A case that takes this long is looked at by the supervisor (see there).
const SUSPICIOUS_S: u64 = 60;

/// Writes the cases that take suspiciously long to the directory FPV_PROVISIONAL.
fn watch<P: Property>(slots: &[Slot<P::C>], end: &AtomicBool) {
    let limit = std::env::var("FPV_SUSPICIOUS_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(SUSPICIOUS_S);
    let Some(dir) = std::env::var_os("FPV_PROVISIONAL").map(PathBuf::from) else {
        return;
    };
    let mut n = 0;
    while !end.load(Ordering::Relaxed) {
        std::thread::sleep(std::time::Duration::from_millis(200));
        for slot in slots {
            let mut slot = slot.lock().unwrap();
            let Some(r) = slot.as_mut() else { continue };
            if r.told || r.since.elapsed().as_secs() < limit {
                continue;
            }
            r.told = true;
            let case = unsafe { &*r.case };
            let replay = Replay {
                property: P::ID.into(),
                stratum: r.stratum.into(),
                message: String::new(),
                case: serde_json::to_value(case).unwrap(),
            };
            let tmp = dir.join("slow.tmp");
            if std::fs::write(&tmp, serde_json::to_string(&replay).unwrap()).is_ok() {
                let _ = std::fs::rename(&tmp, dir.join(format!("slow-{}.json", n)));
                n += 1;
            }
        }
    }
}

/// Makes a case smaller as long as `fails` says that it still fails, for some time.
pub fn shrink<P: Property>(
    r: &Replay,
    seconds: u64,
    fails: &dyn Fn(&Replay) -> bool,
) -> Option<Replay> {
    let of = |c: &P::C| Replay {
        property: P::ID.into(),
        stratum: r.stratum.clone(),
        message: r.message.clone(),
        case: serde_json::to_value(c).unwrap(),
    };
    let case: P::C = serde_json::from_value(r.case.clone()).ok()?;
    let begin = Instant::now();
    let mut tree = ShrinkTree::new(case);
    let mut more = tree.simplify();
    while more && begin.elapsed().as_secs() < seconds {
        more = if fails(&of(&tree.current())) {
            tree.simplify()
        } else {
            tree.complicate()
        };
    }
    Some(of(&tree.best))
}

struct Failure {
    stratum: &'static str,
    stratum_idx: usize,
    worker: usize,
    message: String,
    case: serde_json::Value,
}

/// The exit code of the check.
pub fn run<P: Property>() -> i32 {
    let start = Instant::now();
    let seed = seed();
    let tier = tier();
    let trace: Option<PathBuf> = std::env::var_os("FPV_TRACE").map(PathBuf::from);
    let mut strata = P::strata(tier);
    for s in &mut strata {
        if matches!(s.source, Source::Random(_)) {
            s.cases *= P::SCALE;
        }
    }
    let strata = Arc::new(strata);
    let stop = Arc::new(AtomicBool::new(false));
    let failures: Arc<Mutex<Vec<Failure>>> = Arc::new(Mutex::new(Vec::new()));
    let totals: Arc<Mutex<Totals>> = Arc::new(Mutex::new(Totals::default()));
    let prop_hash = hash64(P::ID);

    let slots: Vec<Slot<P::C>> = (0..WORKERS).map(|_| Default::default()).collect();
    let end = Arc::new(AtomicBool::new(false));
    {
        let (slots, end) = (slots.clone(), end.clone());
        std::thread::spawn(move || watch::<P>(&slots, &end));
    }
    let handles: Vec<_> = (0..WORKERS)
        .map(|worker| {
            let slot = slots[worker].clone();
            let (strata, stop, failures, totals, trace) = (
                strata.clone(),
                stop.clone(),
                failures.clone(),
                totals.clone(),
                trace.clone(),
            );
            std::thread::Builder::new()
                .name(format!("worker-{}", worker))
                .spawn(move || {
                    for (si, s) in strata.iter().enumerate() {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        run_stratum::<P>(
                            s, si, worker, seed, prop_hash, &stop, &failures, &totals, &trace,
                            &slot,
                        );
                    }
                })
                .unwrap()
        })
        .collect();
    for h in handles {
        if let Err(p) = h.join() {
            eprintln!("error: a worker panicked: {}", payload(&*p));
            return 2;
        }
    }
    end.store(true, Ordering::Relaxed);

    let totals = totals.lock().unwrap();
    let mut failures = failures.lock().unwrap();
    failures.sort_by_key(|f| (f.stratum_idx, f.worker));
    let exit = match failures.first() {
        None => 0,
        Some(f) => {
            let path = write_replay(P::ID, f.stratum, &f.message, &f.case);
            println!("{}: {} (stratum {})", P::ID, f.message, f.stratum);
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            1
        }
    };

    let strata_json: serde_json::Value = totals
        .per_stratum
        .iter()
        .map(|(k, (n, nt))| {
            (
                k.to_string(),
                serde_json::json!({"evaluations": n, "nontrivial": nt}),
            )
        })
        .collect::<serde_json::Map<_, _>>()
        .into();
    let all_strata: Vec<&str> = strata
        .iter()
        .filter(|s| matches!(s.source, Source::All(_)))
        .map(|s| s.name)
        .collect();
    let evidence = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed as i64,
        "level": P::LEVEL,
        "coverage": {
            "evaluations": totals.evaluations,
            "distinct_nontrivial": totals.seen.len(),
            "nontrivial": totals.nontrivial,
            "rule": P::RULE,
            "samples": totals.samples.values().cloned().collect::<Vec<_>>(),
            "classes": totals.labels,
            "strata": strata_json,
            "completely_enumerated_strata": all_strata,
            "hooks": cfg!(fast_paths_verif),
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": failures.len(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", P::ID)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("error: cannot write the evidence file: {}", e);
        if exit == 0 {
            return 2;
        }
    }
    println!(
        "{}: {} cases, {} of them non-trivial, {:.1} s, {}",
        P::ID,
        totals.evaluations,
        totals.nontrivial,
        start.elapsed().as_secs_f64(),
        if exit == 0 { "ok" } else { "VIOLATED" }
    );
    if std::env::var_os("FPV_STATS").is_some() {
        println!("{}", serde_json::to_string_pretty(&evidence["coverage"]["classes"]).unwrap());
        println!("{}", evidence["coverage"]["strata"]);
    }
    exit
}

pub fn write_replay(
    id: &str,
    stratum: &str,
    message: &str,
    case: &serde_json::Value,
) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!(
        "{}-{:016x}.json",
        id,
        hash64((stratum, case.to_string()))
    ));
    let r = Replay {
        property: id.to_string(),
        stratum: stratum.to_string(),
        message: message.to_string(),
        case: case.clone(),
    };
    if let Err(e) = std::fs::write(&path, serde_json::to_string(&r).unwrap() + "\n") {
        eprintln!("warning: cannot write {}: {}", path.display(), e);
    }
    path
}

/// The first failing case, before it is made smaller: should that never end, this one is reported.
fn write_provisional(id: &str, stratum: &str, worker: usize, message: &str, case: &impl Serialize) {
    if let Some(d) = std::env::var_os("FPV_PROVISIONAL") {
        let r = Replay {
            property: id.to_string(),
            stratum: stratum.to_string(),
            message: message.to_string(),
            case: serde_json::to_value(case).unwrap(),
        };
        let d = PathBuf::from(d);
        let tmp = d.join(format!("{}.tmp", worker));
        if std::fs::write(&tmp, serde_json::to_string(&r).unwrap()).is_ok() {
            let _ = std::fs::rename(&tmp, d.join(format!("{}.json", worker)));
        }
    }
}

/// When the process that explores is brought down, it cannot write the evidence itself.
pub fn write_crash_evidence(id: &str, message: &str, wall_s: f64) {
    let evidence = serde_json::json!({
        "property": id,
        "tier": if tier() == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": 1,
            "distinct_nontrivial": 1,
            "rule": "the exploration was ended by a crash of the code under test, see the replay file",
            "samples": [message],
        },
        "wall_s": wall_s,
        "violations": 1,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    );
}

#[allow(clippy::too_many_arguments)]
fn run_stratum<P: Property>(
    s: &Stratum<P::C>,
    si: usize,
    worker: usize,
    seed: u64,
    prop_hash: u64,
    stop: &AtomicBool,
    failures: &Mutex<Vec<Failure>>,
    totals: &Mutex<Totals>,
    trace: &Option<PathBuf>,
    slot: &Slot<P::C>,
) {
    let local = RefCell::new(Totals::default());
    let slow_ms: u128 = std::env::var("FPV_SLOW_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let failed = std::cell::Cell::new(false);
    let trace_file = trace.as_ref().map(|d| d.join(format!("{}.json", worker)));
    let eval = |case: &P::C| -> Result<(), String> {
        // once a worker has failed the others stop; the failed one goes on with shrinking
        if stop.load(Ordering::Relaxed) && !failed.get() {
            return Ok(());
        }
        if let Some(f) = &trace_file {
            let r = Replay {
                property: P::ID.into(),
                stratum: s.name.into(),
                message: String::new(),
                case: serde_json::to_value(case).unwrap(),
            };
            std::fs::write(f, serde_json::to_string(&r).unwrap()).unwrap();
        }
        let mut t = Tally::default();
        let begin = Instant::now();
        *slot.lock().unwrap() = Some(Running {
            stratum: s.name,
            since: begin,
            case,
            told: false,
        });
        let r = evaluate::<P>(case, &mut t);
        *slot.lock().unwrap() = None;
        if slow_ms > 0 && begin.elapsed().as_millis() > slow_ms {
            println!("slow: {:.1} s, {}, {}", begin.elapsed().as_secs_f64(), s.name, truncated(case));
        }
        if !failed.get() {
            let mut l = local.borrow_mut();
            l.evaluations += 1;
            let e = l.per_stratum.entry(s.name).or_default();
            e.0 += 1;
            if t.nontrivial {
                e.1 += 1;
                l.nontrivial += 1;
                let h = hash64(bincode::serialize(case).unwrap());
                l.seen.insert(h);
                let n = l.samples.len();
                if worker == 0 && n < 2 {
                    l.samples.insert((s.name, n), truncated(case));
                }
            }
            for (label, n) in t.labels {
                *l.labels.entry(label).or_default() += n;
            }
        }
        if let Err(message) = &r {
            if !failed.get() {
                write_provisional(P::ID, s.name, worker, message, case);
            }
            failed.set(true);
            stop.store(true, Ordering::Relaxed);
        }
        r
    };

    let share = s.cases / WORKERS as u64 + ((worker as u64) < s.cases % WORKERS as u64) as u64;
    let failure: Option<(String, P::C)> = match &s.source {
        Source::Random(gen) => {
            let rng = rng_from([seed, prop_hash, si as u64, worker as u64]);
            let config = Config {
                cases: share as u32,
                failure_persistence: None,
                max_shrink_iters: 20_000,
                max_shrink_time: 20_000,
                max_local_rejects: 1,
                max_global_rejects: 1,
                verbose: 0,
                rng_algorithm: RngAlgorithm::ChaCha,
                rng_seed: RngSeed::Fixed(seed),
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(config, rng);
            if share == 0 {
                None
            } else {
                let strategy = GenStrategy::<P::C> { gen: gen.clone() };
                match runner.run(&strategy, |c| eval(&c).map_err(TestCaseError::fail)) {
                    Ok(()) => None,
                    Err(TestError::Fail(m, c)) => Some((m.message().to_string(), c)),
                    Err(TestError::Abort(m)) => panic!("proptest aborted: {}", m.message()),
                }
            }
        }
        Source::All(nth) => {
            let mut res = None;
            for i in (worker as u64..s.cases).step_by(WORKERS) {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let c = nth(i);
                if let Err(m) = eval(&c) {
                    res = Some((m, c));
                    break;
                }
            }
            res.map(|(mut message, c)| {
                let mut tree = ShrinkTree::new(c);
                let begin = Instant::now();
                let mut more = tree.simplify();
                while more && begin.elapsed().as_secs() < 20 {
                    match eval(&tree.current()) {
                        Ok(()) => more = tree.complicate(),
                        Err(m) => {
                            message = m;
                            more = tree.simplify();
                        }
                    }
                }
                (message, tree.best.clone())
            })
        }
    };

    if let Some((_, case)) = failure {
        // the message that belongs to the final case
        let mut t = Tally::default();
        let message = match evaluate::<P>(&case, &mut t) {
            Err(m) => m,
            Ok(()) => "the failure did not repeat on the shrunk case".to_string(),
        };
        failures.lock().unwrap().push(Failure {
            stratum: s.name,
            stratum_idx: si,
            worker,
            message,
            case: serde_json::to_value(&case).unwrap(),
        });
    }
    let l = local.into_inner();
    let mut t = totals.lock().unwrap();
    t.evaluations += l.evaluations;
    t.nontrivial += l.nontrivial;
    t.seen.extend(l.seen);
    for (k, v) in l.labels {
        *t.labels.entry(k).or_default() += v;
    }
    for (k, (a, b)) in l.per_stratum {
        let e = t.per_stratum.entry(k).or_default();
        e.0 += a;
        e.1 += b;
    }
    t.samples.extend(l.samples);
}

/// Evaluates a saved case, without proptest.
pub fn replay<P: Property>(r: &Replay, path: &str) -> i32 {
    let case: P::C = match serde_json::from_value(r.case.clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("error: not a case of {}: {}", P::ID, e);
            return 2;
        }
    };
    let mut t = Tally::default();
    match evaluate::<P>(&case, &mut t) {
        Ok(()) => {
            println!("{}: the saved case passes", P::ID);
            0
        }
        Err(m) => {
            println!("{}: {}", P::ID, m);
            println!("VIOLATION property={} replay={}", P::ID, path);
            1
        }
    }
}
