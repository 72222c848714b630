//! Small driver around proptest: laws, deterministic sharded execution, shrinking, replay files,
//! evidence and known findings.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A violated law. `sig` identifies a root cause exactly, and is what known findings are keyed by.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub sig: Option<String>,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), sig: None }
    }
    pub fn sig(sig: &str, msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), sig: Some(sig.to_string()) }
    }
}

/// Ok(true): the case was non-trivial by the law's rule. Ok(false): trivial.
pub type Check = Result<bool, Fail>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)+) => { if !$c { return Err($crate::fw::Fail::new(format!($($a)+))); } };
}
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {
        match (&$a, &$b) {
            (a, b) => if !(*a == *b) {
                return Err($crate::fw::Fail::new(format!(
                    "{}: got {:?}, expected {:?}", format!($($m)+), a, b)));
            }
        }
    };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)+) => { return Err($crate::fw::Fail::new(format!($($a)+))) };
}

thread_local! {
    static CLASSES: RefCell<BTreeMap<String, u64>> = RefCell::new(BTreeMap::new());
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static COUNTING: RefCell<bool> = RefCell::new(true);
}

/// Count a class of case, for the distribution written to the evidence file.
pub fn classify(label: &str) {
    if COUNTING.with(|c| *c.borrow()) {
        CLASSES.with(|c| {
            let mut c = c.borrow_mut();
            if let Some(n) = c.get_mut(label) {
                *n += 1;
            } else {
                c.insert(label.to_string(), 1);
            }
        })
    }
}

pub fn classify_if(cond: bool, label: &str) {
    if cond {
        classify(label)
    }
}

/// Runs `f`, turning a panic into its message.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic (no message)".into())
    })
}

#[derive(Default)]
pub struct ShardReport {
    evaluations: u64,
    rejects: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<Value>,
    classes: BTreeMap<String, u64>,
    known_hits: BTreeMap<String, u64>,
    failure: Option<(Value, Fail)>,
    error: Option<String>,
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub known: HashSet<String>,
}

pub trait DynLaw: Sync + Send {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn cases(&self, thorough: bool) -> u32;
    fn run_shard(&self, env: &Env, slot: &Slot, shard: u32, cases: u32) -> ShardReport;
    fn replay(&self, v: &Value) -> Result<Check, String>;
    /// The value of case number `idx` of a shard, generated again.
    fn regen(&self, env: &Env, shard: u32, cases: u32, idx: u64) -> Option<Value>;
}

pub struct Law<T, M, F> {
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    mk: M,
    f: F,
    _p: std::marker::PhantomData<fn() -> T>,
}

/// A law: generator, oracle and case counts.
pub fn law<T, S, M, F>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    mk: M,
    f: F,
) -> Box<dyn DynLaw>
where
    T: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = T> + 'static,
    M: Fn() -> S + Sync + Send + 'static,
    F: Fn(&T) -> Check + Sync + Send + 'static,
{
    Box::new(Law {
        name,
        rule,
        quick,
        thorough,
        mk: move || mk().boxed(),
        f,
        _p: std::marker::PhantomData,
    })
}

fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn guarded<T>(f: &dyn Fn(&T) -> Check, t: &T) -> Check {
    match no_panic(|| f(t)) {
        Ok(r) => r,
        Err(p) => Err(Fail::new(format!("panicked: {}", p))),
    }
}

fn runner(law: &str, seed: u64, shard: u32, cases: u32, shrink: u32) -> TestRunner {
    let mut st = seed ^ fnv(law.as_bytes()) ^ ((shard as u64) << 48);
    let mut seed = [0u8; 32];
    for c in seed.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut st).to_le_bytes());
    }
    TestRunner::new_with_rng(
        Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: shrink,
            max_shrink_time: 60_000,
            max_local_rejects: 1_000_000,
            max_global_rejects: 10_000_000,
            ..Config::default()
        },
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
    )
}

/// What a worker is doing, for the watchdog (a case that never ends) and, through a file shared with the
/// parent process, for the case of the whole process being killed by one input.
pub struct Slot {
    id: u64,
    law: AtomicU64,
    shard: AtomicU64,
    cases: AtomicU64,
    idx: AtomicU64,
    since: AtomicU64,
    file: Option<std::fs::File>,
    start: Instant,
}

impl Slot {
    fn begin(&self, law: usize, shard: u32, cases: u32) {
        self.law.store(law as u64, Ordering::SeqCst);
        self.shard.store(shard as u64, Ordering::SeqCst);
        self.cases.store(cases as u64, Ordering::SeqCst);
        self.idx.store(0, Ordering::SeqCst);
    }
    fn enter(&self, advance: bool) {
        if advance {
            self.idx.fetch_add(1, Ordering::SeqCst);
        }
        self.since.store(1 + self.start.elapsed().as_millis() as u64, Ordering::SeqCst);
        self.note(1);
    }
    fn leave(&self) {
        self.since.store(0, Ordering::SeqCst);
        self.note(0);
    }
    fn note(&self, busy: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = [0u8; 40];
            let at = |a: &AtomicU64| a.load(Ordering::SeqCst);
            for (c, v) in b.chunks_mut(8).zip([busy, at(&self.law), at(&self.shard), at(&self.cases), at(&self.idx)]) {
                c.copy_from_slice(&v.to_le_bytes());
            }
            let _ = f.write_at(&b, self.id * 40);
        }
    }
}

impl<T, M, F> DynLaw for Law<T, M, F>
where
    T: Serialize + DeserializeOwned + Debug + Clone + 'static,
    M: Fn() -> BoxedStrategy<T> + Sync + Send,
    F: Fn(&T) -> Check + Sync + Send,
{
    fn name(&self) -> &str {
        self.name
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn cases(&self, thorough: bool) -> u32 {
        let scale = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0f64);
        ((if thorough { self.thorough } else { self.quick.saturating_mul(16).min(self.thorough) }) as f64 * scale) as u32
    }
    fn run_shard(&self, env: &Env, slot: &Slot, shard: u32, cases: u32) -> ShardReport {
        let mut runner = runner(self.name, env.seed, shard, cases, 20_000);
        CLASSES.with(|c| c.borrow_mut().clear());
        COUNTING.with(|c| *c.borrow_mut() = true);
        let rep = RefCell::new(ShardReport::default());
        let last_fail: RefCell<Option<Fail>> = RefCell::new(None);
        let failed = RefCell::new(false);
        let strat = (self.mk)();
        let res = runner.run(&strat, |t| {
            let counting = !*failed.borrow();
            slot.enter(counting);
            let out = guarded(&self.f, &t);
            slot.leave();
            if counting {
                rep.borrow_mut().evaluations += 1;
            }
            match out {
                Ok(nt) => {
                    if counting && nt {
                        let s = serde_json::to_vec(&t).unwrap_or_default();
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        s.hash(&mut h);
                        let mut r = rep.borrow_mut();
                        let fresh = r.nontrivial.insert(h.finish());
                        let n = r.nontrivial.len();
                        if fresh && shard == 0 && (n == 2 || n == 40) && s.len() < 3000 {
                            r.samples.push(json!({"law": self.name, "case": serde_json::from_slice::<Value>(&s).unwrap_or(Value::Null)}));
                        }
                    }
                    Ok(())
                }
                Err(fl) => {
                    if let Some(sig) = &fl.sig {
                        if env.known.contains(sig) {
                            if counting {
                                *rep.borrow_mut().known_hits.entry(sig.clone()).or_insert(0) += 1;
                            }
                            return Ok(());
                        }
                    }
                    *failed.borrow_mut() = true;
                    COUNTING.with(|c| *c.borrow_mut() = false);
                    *last_fail.borrow_mut() = Some(fl.clone());
                    Err(TestCaseError::fail(fl.msg))
                }
            }
        });
        let mut rep = rep.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, min)) => {
                // Re-run the shrunk value on its own, so the reported message is that value's.
                let fl = match guarded(&self.f, &min) {
                    Err(fl) => fl,
                    Ok(_) => last_fail.into_inner().unwrap_or_else(|| Fail::new("unstable")),
                };
                rep.failure = Some((serde_json::to_value(&min).unwrap_or(Value::Null), fl));
            }
            Err(TestError::Abort(r)) => rep.error = Some(format!("{}: aborted: {}", self.name, r)),
        }
        rep.classes = CLASSES.with(|c| std::mem::take(&mut *c.borrow_mut()));
        rep
    }
    fn replay(&self, v: &Value) -> Result<Check, String> {
        let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(&self.f, &t))
    }
    fn regen(&self, env: &Env, shard: u32, cases: u32, idx: u64) -> Option<Value> {
        let mut runner = runner(self.name, env.seed, shard, cases, 0);
        let n = RefCell::new(0u64);
        let out: RefCell<Option<Value>> = RefCell::new(None);
        let _ = runner.run(&(self.mk)(), |t| {
            let mut n = n.borrow_mut();
            *n += 1;
            if *n == idx {
                *out.borrow_mut() = serde_json::to_value(&t).ok();
            }
            if *n >= idx {
                return Err(TestCaseError::fail("stop"));
            }
            Ok(())
        });
        out.into_inner()
    }
}

pub fn verif_dir() -> PathBuf {
    // <verif>/harness is the manifest dir
    let d = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    });
    d
}

#[derive(serde::Deserialize, Default)]
struct KnownFile {
    #[serde(default)]
    findings: Vec<Known>,
}
#[derive(serde::Deserialize, Clone)]
struct Known {
    property: String,
    law: String,
    signature: String,
    input: Value,
    what: String,
}

const WORKERS: u64 = 8;
const CASE_LIMIT_S: u64 = 90;

/// A case that hangs or kills the process cannot be shrunk in place: it is written out as it is.
fn report_fatal(property: &str, law: &str, env: &Env, v: Value, msg: &str, evaluations: u64, rule: &str) -> ! {
    let evdir = verif_dir().join("evidence");
    let rdir = evdir.join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let p = rdir.join(format!("{}-{}.json", property, law));
    let rj = json!({"property": property, "law": law, "seed": env.seed, "input": v, "message": msg, "signature": null});
    std::fs::write(&p, serde_json::to_string_pretty(&rj).unwrap()).expect("write replay");
    let ev = json!({
        "property": property, "tier": if env.thorough {"thorough"} else {"quick"}, "seed": env.seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": 1, "rule": format!("{}: {}", law, rule), "samples": [{"law": law, "case": v}]},
        "wall_s": 0.0, "violations": 1,
    });
    let _ = std::fs::write(evdir.join(format!("{}.json", property)), serde_json::to_string_pretty(&ev).unwrap());
    println!("law {} fails: {}", law, msg);
    println!("VIOLATION property={} replay={}", property, p.display());
    std::process::exit(1)
}

/// Runs the check in a child process. If one input kills that process (stack overflow, abort on an absurd
/// allocation), finds the input among those that were running, and confirms it on its own.
fn supervise(property: &str, laws: &[Box<dyn DynLaw>], seed: u64, thorough: bool) -> ! {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("exe");
    let slots = std::env::temp_dir().join(format!("pbt-slots-{}-{}", property, std::process::id()));
    std::fs::write(&slots, vec![0u8; 40 * WORKERS as usize]).expect("slots");
    let st = Command::new(&exe).args(std::env::args().skip(1)).env("PBT_CHILD", &slots).status().expect("child");
    let raw = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    eprintln!("{}: the process was ended: {}", property, st);
    let env = Env { seed, thorough, known: HashSet::new() };
    for s in raw.chunks(40) {
        let n: Vec<u64> = s.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        if n[0] != 1 {
            continue;
        }
        let l = &laws[n[1] as usize];
        if let Some(v) = l.regen(&env, n[2] as u32, n[3] as u32, n[4]) {
            let p = std::env::temp_dir().join(format!("pbt-try-{}-{}.json", property, std::process::id()));
            std::fs::write(&p, json!({"law": l.name(), "input": v}).to_string()).expect("try");
            let st = Command::new(&exe).arg("replay").arg(&p).env("PBT_CHILD", "x").stdout(Stdio::null()).status().expect("replay");
            let _ = std::fs::remove_file(&p);
            if st.code().is_none() || st.code() == Some(1) {
                report_fatal(property, l.name(), &env, v, &format!("this case alone ends the process: {}", st), n[4], l.rule());
            }
        }
    }
    eprintln!("{}: no single case ends the process: inconclusive", property);
    std::process::exit(3)
}

pub fn main(property: &str, laws: Vec<Box<dyn DynLaw>>) -> ! {
    crate::dict::set_property(property);
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
    let args: Vec<String> = std::env::args().collect();
    let dir = verif_dir();
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let v: Value = serde_json::from_str(&txt).expect("replay json");
        let lname = v["law"].as_str().unwrap_or("");
        {
            let (property, file) = (property.to_string(), args[2].clone());
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(CASE_LIMIT_S));
                println!("the case has not ended after {} s", CASE_LIMIT_S);
                println!("VIOLATION property={} replay={}", property, file);
                std::process::exit(1);
            });
        }
        for l in &laws {
            if l.name() == lname {
                match l.replay(&v["input"]) {
                    Err(e) => {
                        eprintln!("cannot decode input: {}", e);
                        std::process::exit(2)
                    }
                    Ok(Ok(_)) => {
                        println!("law {} holds on this input", lname);
                        std::process::exit(0)
                    }
                    Ok(Err(fl)) => {
                        println!("law {} fails: {}", lname, fl.msg);
                        println!("VIOLATION property={} replay={}", property, args[2]);
                        std::process::exit(1)
                    }
                }
            }
        }
        eprintln!("no law {}", lname);
        std::process::exit(2);
    }
    let only: Option<String> = args.get(1).cloned();
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let limit: u64 = std::env::var("PBT_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 6 * 3600 } else { 720 });

    if std::env::var_os("PBT_CHILD").is_none() {
        supervise(property, &laws, seed, thorough);
    }

    // known findings
    let kf: KnownFile = match std::fs::read_to_string(dir.join("known_findings.json")) {
        Ok(s) => serde_json::from_str(&s).expect("known_findings.json must parse"),
        Err(_) => KnownFile::default(),
    };
    let mine: Vec<Known> = kf.findings.iter().filter(|k| k.property == property).cloned().collect();
    let mut known = HashSet::new();
    for k in &mine {
        known.insert(k.signature.clone());
        let l = laws.iter().find(|l| l.name() == k.law).expect("known finding names a law");
        match l.replay(&k.input) {
            Ok(Err(fl)) if fl.sig.as_deref() == Some(&k.signature) => {
                println!("KNOWN-FINDING: property={} {}", property, k.what)
            }
            _ => println!("note: listed finding no longer reproduces: {}", k.signature),
        }
    }

    let slots: std::sync::Arc<Vec<Slot>> = std::sync::Arc::new((0..WORKERS).map(|id| Slot {
        id,
        law: AtomicU64::new(0),
        shard: AtomicU64::new(0),
        cases: AtomicU64::new(0),
        idx: AtomicU64::new(0),
        since: AtomicU64::new(0),
        file: std::env::var_os("PBT_CHILD").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()),
        start,
    }).collect());
    let laws = std::sync::Arc::new(laws);
    let done = std::sync::Arc::new(AtomicBool::new(false));
    {
        let (slots, laws) = (slots.clone(), laws.clone());
        let env = Env { seed, thorough, known: HashSet::new() };
        // Watchdog: running out of time is inconclusive (error exit), never a violation.
        let done = done.clone();
        let property = property.to_string();
        std::thread::spawn(move || {
            let t = Instant::now();
            while t.elapsed().as_secs() < limit {
                std::thread::sleep(std::time::Duration::from_millis(200));
                if done.load(Ordering::SeqCst) {
                    return;
                }
                for s in slots.iter() {
                    let since = s.since.load(Ordering::SeqCst);
                    if since > 0 && (start.elapsed().as_millis() as u64) > since + CASE_LIMIT_S * 1000 {
                        let at = |a: &AtomicU64| a.load(Ordering::SeqCst);
                        let l = &laws[at(&s.law) as usize];
                        if let Some(v) = l.regen(&env, at(&s.shard) as u32, at(&s.cases) as u32, at(&s.idx)) {
                            let msg = format!("the case has not ended after {} s", CASE_LIMIT_S);
                            report_fatal(&property, l.name(), &env, v, &msg, at(&s.idx), l.rule());
                        }
                    }
                }
            }
            eprintln!("{}: time limit of {} s reached: inconclusive", property, limit);
            std::process::exit(3);
        });
    }

    let env = Env { seed, thorough, known };
    let mut jobs: Vec<(usize, u32, u32)> = vec![];
    for (i, l) in laws.iter().enumerate() {
        if let Some(o) = &only {
            if !l.name().contains(o.as_str()) {
                continue;
            }
        }
        let n = l.cases(thorough);
        let shards = if n < 64 { 1 } else if n < 200_000 { 8 } else { 32 };
        for s in 0..shards {
            jobs.push((i, s, (n / shards).max(1)));
        }
    }
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, u32, ShardReport, f64)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        let (laws, jobs, next, results, env) = (&laws, &jobs, &next, &results, &env);
        for w in 0..WORKERS {
            let slots = slots.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() {
                        break;
                    }
                    let (i, s, n) = jobs[j];
                    let t = Instant::now();
                    let slot = &slots[w as usize];
                    slot.begin(i, s, n);
                    let r = laws[i].run_shard(env, slot, s, n);
                    results.lock().unwrap().push((i, s, r, t.elapsed().as_secs_f64()));
                })
                .unwrap();
        }
    });
    done.store(true, Ordering::SeqCst);
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| (r.0, r.1));

    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut samples = vec![];
    let mut law_info = serde_json::Map::new();
    let mut violations: Vec<(String, Value, Fail)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for (i, l) in laws.iter().enumerate() {
        let mut ev = 0;
        let mut nt: HashSet<u64> = HashSet::new();
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        let mut secs = 0.0;
        let mut rej = 0;
        let mut ran = false;
        let mut law_failed = false;
        for (_, _, r, t) in results.iter_mut().filter(|r| r.0 == i) {
            ran = true;
            ev += r.evaluations;
            rej += r.rejects;
            nt.extend(r.nontrivial.drain());
            samples.append(&mut r.samples);
            secs += *t;
            for (k, v) in &r.classes {
                *classes.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &r.known_hits {
                *known_hits.entry(k.clone()).or_insert(0) += v;
            }
            if let Some(e) = r.error.take() {
                errors.push(e);
            }
            if let Some((v, fl)) = r.failure.take() {
                if !law_failed {
                    violations.push((l.name().to_string(), v, fl));
                    law_failed = true;
                }
            }
        }
        if !ran {
            continue;
        }
        let _ = rej;
        evaluations += ev;
        distinct += nt.len() as u64;
        if nt.is_empty() && !law_failed {
            errors.push(format!("law {} generated no non-trivial case", l.name()));
        }
        law_info.insert(
            l.name().to_string(),
            json!({"evaluations": ev, "distinct_nontrivial": nt.len(), "rule": l.rule(),
                   "classes": classes, "cpu_s": (secs * 100.0).round() / 100.0}),
        );
    }
    let rule = laws
        .iter()
        .map(|l| format!("{}: {}", l.name(), l.rule()))
        .collect::<Vec<_>>()
        .join(" | ");
    let wall = start.elapsed().as_secs_f64();
    let ev_json = json!({
        "property": property,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "laws": law_info,
            "known_finding_hits": known_hits,
        },
        "assumptions": ["the harness's reference models and generators (harness/src) are what defines correct behaviour"],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let evdir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{}.json", property)),
        serde_json::to_string_pretty(&ev_json).unwrap(),
    )
    .expect("write evidence");

    for (n, v) in &law_info {
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {} cpu-s {}",
            property, n, v["evaluations"], v["distinct_nontrivial"], v["cpu_s"], v["classes"]
        );
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, seed {}, {:.1} s",
        property, evaluations, distinct, seed, wall
    );
    if !violations.is_empty() {
        for (l, v, fl) in &violations {
            let rdir = evdir.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let p = rdir.join(format!("{}-{}.json", property, l));
            let rj = json!({"property": property, "law": l, "seed": seed, "input": v, "message": fl.msg, "signature": fl.sig});
            std::fs::write(&p, serde_json::to_string_pretty(&rj).unwrap()).expect("write replay");
            println!("law {} fails: {}", l, fl.msg);
            println!("  minimal input: {}", v);
            println!("VIOLATION property={} replay={}", property, p.display());
        }
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {}", e);
        }
        std::process::exit(3);
    }
    std::process::exit(0);
}
