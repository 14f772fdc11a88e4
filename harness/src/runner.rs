//! Deterministic, sharded property runner on top of proptest.
//!
//! Every sub-check owns a strategy and an oracle. Its cases are divided into a
//! fixed number of shards; every shard has its own ChaCha stream derived from
//! (VERIF_SEED, property, sub-check, shard), so a run is a pure function of the
//! code under test and the seed, however the shards are scheduled.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::{LazyLock, Mutex};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::Instant;

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};

/// Why a case did not pass.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken on this case.
    Violation(String),
    /// The harness itself could not decide the case (spawn error, time-out).
    Harness(String),
    /// The case cannot be put to the program (an argument with a NUL byte).
    Skip,
}

impl Fail {
    pub fn text(self) -> String {
        match self {
            Fail::Violation(m) | Fail::Harness(m) => m,
            Fail::Skip => String::new(),
        }
    }
}

/// `Ok(true)` means that the case was non-trivial by the rule of its property.
pub type Res = Result<bool, Fail>;

pub fn bad<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::runner::Fail::Violation(format!($($arg)*)));
        }
    };
}

/// Per-shard environment handed to the oracle.
pub struct Env {
    pub labels: BTreeMap<String, u64>,
    pub evals: u64,
    scratch: PathBuf,
    n: u64,
}

impl Env {
    pub fn new(scratch: PathBuf) -> Self {
        Self { labels: BTreeMap::new(), evals: 0, scratch, n: 0 }
    }

    /// Counts a class of cases (reported in the evidence file).
    pub fn label(&mut self, l: &str) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }

    pub fn label_if(&mut self, cond: bool, l: &str) {
        if cond {
            self.label(l)
        }
    }

    /// A deviation that is a listed finding (known-findings.txt) is counted;
    /// any other one is a violation.
    pub fn known(&mut self, sig: &str, msg: impl FnOnce() -> String) -> Result<(), Fail> {
        if FINDINGS.contains_key(sig) {
            self.label(&format!("known:{sig}"));
            return Ok(());
        }
        Err(Fail::Violation(msg()))
    }

    /// A fresh, empty directory for one case.
    pub fn fresh_dir(&mut self) -> Result<PathBuf, Fail> {
        self.clean();
        self.n += 1;
        let dir = self.scratch.join(format!("c{}", self.n));
        std::fs::create_dir_all(&dir)
            .map_err(|e| Fail::Harness(format!("scratch dir: {e}")))?;
        Ok(dir)
    }

    pub fn clean(&mut self) {
        let dir = self.scratch.join(format!("c{}", self.n));
        let _ = std::fs::remove_dir_all(dir);
    }
}

/// Signature -> (property, description) of the committed findings.
static FINDINGS: LazyLock<BTreeMap<String, (String, String)>> = LazyLock::new(|| {
    let text = std::fs::read_to_string(root().join("known-findings.txt"))
        .or_else(|_| {
            std::fs::read_to_string(
                Path::new(env!("CARGO_MANIFEST_DIR")).join("../known-findings.txt"),
            )
        })
        .unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        let Some(l) = l.strip_prefix("finding: property=") else { continue };
        let mut it = l.splitn(3, ' ');
        let (Some(p), Some(s), Some(t)) = (it.next(), it.next(), it.next()) else {
            continue;
        };
        if let Some(s) = s.strip_prefix("signature=") {
            m.insert(s.to_string(), (p.to_string(), t.to_string()));
        }
    }
    m
});

type ShardFn = Box<dyn Fn(&ShardArgs) -> ShardOut + Send + Sync>;
type ReplayFn = Box<dyn Fn(Value, &mut Env) -> Result<Res, String> + Send + Sync>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    run: ShardFn,
    pub replay: ReplayFn,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

struct ShardArgs<'a> {
    cases: u32,
    seed: [u8; 32],
    scratch: PathBuf,
    guard: Option<PathBuf>,
    shrink: u32,
    stop: &'a AtomicBool,
}

#[derive(Default)]
struct ShardOut {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    failure: Option<(Value, String)>,
    harness: Option<String>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "?".into())
    })
}

fn hash_of(bytes: &[u8]) -> u64 {
    let mut h = DefaultHasher::new();
    bytes.hash(&mut h);
    h.finish()
}

fn guarded<T>(
    check: &(dyn Fn(&T, &mut Env) -> Res + Send + Sync),
    case: &T,
    env: &mut Env,
) -> Res {
    match no_panic(|| check(case, env)) {
        Ok(Err(Fail::Skip)) => {
            env.label("not-expressible");
            Ok(false)
        }
        Ok(r) => r,
        Err(msg) => Err(Fail::Violation(format!("panic: {msg}"))),
    }
}

/// Builds a sub-check from a strategy and an oracle.
pub fn sub<T, S, C>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strategy: S,
    check: C,
) -> Sub
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
    S: Fn() -> BoxedStrategy<T> + Send + Sync + 'static,
    C: Fn(&T, &mut Env) -> Res + Send + Sync + Clone + 'static,
{
    let check2 = check.clone();
    let run = move |args: &ShardArgs| -> ShardOut {
        let config = Config {
            cases: args.cases,
            failure_persistence: None,
            max_shrink_iters: args.shrink,
            max_shrink_time: 120_000,
            max_global_rejects: 1_000_000,
            verbose: 0,
            source_file: None,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &args.seed);
        let mut runner = TestRunner::new_with_rng(config, rng);
        let st = strategy();
        let out = RefCell::new(ShardOut::default());
        let env = RefCell::new(Env::new(args.scratch.clone()));
        let failed = RefCell::new(false);
        let result = runner.run(&st, |case: T| {
            if out.borrow().harness.is_some() {
                return Ok(());
            }
            if !*failed.borrow() && args.stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            let text = serde_json::to_vec(&case).expect("serialisable case");
            if let Some(ref g) = args.guard {
                let _ = std::fs::write(g, &text);
            }
            let mut env = env.borrow_mut();
            let r = guarded(&check, &case, &mut env);
            match r {
                Ok(nontrivial) => {
                    if !*failed.borrow() {
                        let mut o = out.borrow_mut();
                        o.evaluations += 1;
                        if nontrivial && o.nontrivial.insert(hash_of(&text))
                            && o.samples.len() < 3
                        {
                            let mut s =
                                String::from_utf8_lossy(&text).to_string();
                            if s.len() > 1500 {
                                let mut k = 1500;
                                while !s.is_char_boundary(k) { k -= 1; }
                                s.truncate(k);
                                s.push_str("...");
                            }
                            o.samples.push(s);
                        }
                    }
                    Ok(())
                }
                Err(Fail::Violation(msg)) => {
                    *failed.borrow_mut() = true;
                    Err(TestCaseError::fail(msg))
                }
                Err(Fail::Skip) => Ok(()),
                Err(Fail::Harness(msg)) => {
                    out.borrow_mut().harness = Some(msg);
                    Ok(())
                }
            }
        });
        env.borrow_mut().clean();
        let _ = std::fs::remove_dir_all(&args.scratch);
        let mut out = out.into_inner();
        let env = env.into_inner();
        out.labels = env.labels;
        out.evaluations += env.evals;
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                args.stop.store(true, Ordering::Relaxed);
                out.failure = Some((
                    serde_json::to_value(&case).unwrap(),
                    reason.to_string(),
                ));
            }
            Err(TestError::Abort(reason)) => {
                out.harness = Some(format!("proptest abort: {reason}"));
            }
        }
        out
    };
    let replay = move |v: Value, env: &mut Env| -> Result<Res, String> {
        let case: T = serde_json::from_value(v).map_err(|e| e.to_string())?;
        Ok(guarded(&check2, &case, env))
    };
    Sub { name, quick, thorough, run: Box::new(run), replay: Box::new(replay) }
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn scratch_root() -> PathBuf {
    match std::env::var_os("VERIF_SCRATCH") {
        Some(p) => PathBuf::from(p),
        None => std::env::temp_dir()
            .join(format!("pica-verif-{}", std::process::id())),
    }
}

pub fn seed_bytes(seed: u64, prop: &str, sub: &str, shard: usize) -> [u8; 32] {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(format!("{seed}/{prop}/{sub}/{shard}").as_bytes());
    let mut out = [0u8; 32];
    out.copy_from_slice(&h.finalize());
    out
}

pub const SHARDS: usize = 16;

/// Exit code: 0 held, 1 violation, 3 harness error.
pub fn run_property(p: &Property, seed: u64, tier: &str) -> i32 {
    let start = Instant::now();
    let thorough = tier == "thorough";
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(2, 16);
    let only = std::env::var("VERIF_SUB").ok();
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let scratch = scratch_root();
    let shrink: u32 = std::env::var("VERIF_SHRINK")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if p.id.starts_with('C') { 600 } else { 20_000 });

    // Saved regression cases first.
    let mut regress = 0u64;
    let mut regress_known = BTreeMap::new();
    let mut harness_errors: Vec<String> = vec![];
    let mut failures: Vec<(usize, usize, Value, String)> = vec![];
    let dir = root().join("regress").join(p.id);
    let mut files: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        match replay_file(p, &f, &scratch) {
            Ok((si, case, r, labels)) => {
                regress += 1;
                for (k, v) in labels {
                    if let Some(sig) = k.strip_prefix("known:") {
                        *regress_known.entry(sig.to_string()).or_default() += v;
                    }
                }
                match r {
                    Ok(_) => {}
                    Err(Fail::Violation(m)) => failures.push((
                        si,
                        usize::MAX,
                        case,
                        format!("saved case {}: {m}", f.display()),
                    )),
                    Err(Fail::Harness(m)) => harness_errors.push(m),
                    Err(Fail::Skip) => {}
                }
            }
            Err(e) => harness_errors.push(format!("{}: {e}", f.display())),
        }
    }

    let jobs: Vec<(usize, usize, u32)> = p
        .subs
        .iter()
        .enumerate()
        .filter(|(_, s)| only.as_deref().is_none_or(|o| o == s.name))
        .flat_map(|(i, s)| {
            let n = if thorough { s.thorough } else { s.quick };
            let n = ((n as f64) * scale).ceil() as u32;
            (0..SHARDS).filter_map(move |k| {
                let c = n / SHARDS as u32
                    + u32::from((k as u32) < n % SHARDS as u32);
                (c > 0).then_some((i, k, c))
            })
        })
        .collect();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(!failures.is_empty());
    let results: Mutex<Vec<(usize, usize, ShardOut, f64)>> = Mutex::new(vec![]);
    if failures.is_empty() {
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || {
                        loop {
                            let j = next.fetch_add(1, Ordering::SeqCst);
                            let Some(&(si, shard, cases)) = jobs.get(j) else {
                                break;
                            };
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let s = &p.subs[si];
                            let guard = std::env::var_os("VERIF_GUARD").map(
                                |d| {
                                    PathBuf::from(d)
                                        .join(format!("{si}.{shard}"))
                                },
                            );
                            let t = Instant::now();
                            let args = ShardArgs {
                                cases,
                                seed: seed_bytes(seed, p.id, s.name, shard),
                                scratch: scratch.join(format!("{si}-{shard}")),
                                guard: guard.clone(),
                                shrink,
                                stop: &stop,
                            };
                            let out = (s.run)(&args);
                            if let Some(g) = guard {
                                let _ = std::fs::remove_file(g);
                            }
                            results.lock().unwrap().push((
                                si,
                                shard,
                                out,
                                t.elapsed().as_secs_f64(),
                            ));
                        }
                    })
                    .expect("spawn worker");
            }
        });
    }
    let _ = std::fs::remove_dir_all(&scratch);

    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| (r.0, r.1));
    let mut known: BTreeMap<String, u64> = regress_known;
    let mut evaluations = regress;
    let mut distinct = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut subs_json = serde_json::Map::new();
    for (i, s) in p.subs.iter().enumerate() {
        let mut ev = 0;
        let mut set: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut cpu = 0.0;
        let mut nsample = 0;
        for (si, shard, out, t) in results.iter_mut() {
            if *si != i {
                continue;
            }
            ev += out.evaluations;
            cpu += *t;
            set.extend(out.nontrivial.iter());
            for (k, v) in &out.labels {
                if let Some(sig) = k.strip_prefix("known:") {
                    *known.entry(sig.to_string()).or_default() += v;
                }
                *labels.entry(k.clone()).or_default() += v;
            }
            for x in &out.samples {
                if nsample < 3 {
                    nsample += 1;
                    samples.push(json!({"check": s.name, "case": x}));
                }
            }
            if let Some((case, msg)) = out.failure.take() {
                failures.push((i, *shard, case, msg));
            }
            if let Some(m) = out.harness.take() {
                harness_errors.push(format!("{}: {m}", s.name));
            }
        }
        evaluations += ev;
        distinct += set.len() as u64;
        subs_json.insert(
            s.name.to_string(),
            json!({"evaluations": ev, "distinct_nontrivial": set.len(),
                   "classes": labels,
                   "cpu_s": (cpu * 100.0).round() / 100.0}),
        );
    }

    // One report per sub-check: its smallest failing case.
    failures.sort_by_key(|f| (f.0, f.2.to_string().len(), f.1));
    let mut seen = HashSet::new();
    failures.retain(|f| f.1 == usize::MAX || seen.insert(f.0));
    let mut replays = vec![];
    for (si, _, case, msg) in &failures {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let name = p.subs.get(*si).map(|s| s.name).unwrap_or("?");
        let body = json!({"property": p.id, "check": name, "seed": seed,
                          "message": msg, "case": case});
        let h = hash_of(body["case"].to_string().as_bytes());
        let path = dir.join(format!("{}-{}-{:08x}.json", p.id, name, h as u32));
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&body).unwrap() + "\n",
        );
        replays.push(path.clone());
        println!("--- {} / {name}\n{msg}", p.id);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    for (sig, n) in &known {
        if let Some((_, t)) = FINDINGS.get(sig) {
            println!("KNOWN-FINDING: property={} {t} [{sig}, {n}x]", p.id);
        }
    }
    for m in &harness_errors {
        eprintln!("HARNESS-ERROR property={} {m}", p.id);
    }
    let wall = start.elapsed().as_secs_f64();
    let evidence = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "saved_cases_replayed": regress,
            "checks": Value::Object(subs_json),
        },
        "assumptions": p.assumptions,
        "violations": failures.len(),
        "known_findings": known,
        "wall_s": (wall * 100.0).round() / 100.0,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("HARNESS-ERROR cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s",
        p.id,
        evaluations,
        distinct,
        failures.len(),
        wall
    );
    if !failures.is_empty() {
        1
    } else if !harness_errors.is_empty() {
        3
    } else {
        0
    }
}

pub fn replay_file(
    p: &Property,
    file: &Path,
    scratch: &Path,
) -> Result<(usize, Value, Res, BTreeMap<String, u64>), String> {
    let text = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let name = v["check"].as_str().ok_or("no check name")?;
    let (si, s) = p
        .subs
        .iter()
        .enumerate()
        .find(|(_, s)| s.name == name)
        .ok_or_else(|| format!("unknown check {name}"))?;
    let mut env = Env::new(scratch.join("replay"));
    let r = (s.replay)(v["case"].clone(), &mut env)?;
    env.clean();
    Ok((si, v["case"].clone(), r, env.labels))
}
