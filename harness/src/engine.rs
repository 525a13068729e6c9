//! Case engine: seeded sharded generation with proptest, shrinking, replay files,
//! known findings and evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const SHARDS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What is known about a case once it has run.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: BTreeSet<String>,
    /// number of individual oracle comparisons made
    pub checks: u64,
}

impl Info {
    pub fn label<S: Into<String>>(&mut self, s: S) {
        self.labels.insert(s.into());
    }
    pub fn label_if<S: Into<String>>(&mut self, c: bool, s: S) {
        if c {
            self.labels.insert(s.into());
        }
    }
}

/// A violated property; `sig` identifies the root cause exactly (for known findings).
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub sig: String,
}

impl Fail {
    pub fn new<S: Into<String>>(msg: S) -> Fail {
        Fail { msg: msg.into(), sig: String::new() }
    }
    pub fn sig<S: Into<String>, T: Into<String>>(sig: T, msg: S) -> Fail {
        Fail { msg: msg.into(), sig: sig.into() }
    }
}
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::new(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Fail {
        Fail::new(s)
    }
}

pub type Res = Result<Info, Fail>;

#[macro_export]
macro_rules! bail { ($($a:tt)*) => { return Err($crate::engine::Fail::new(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Fail::new(format!($($a)*))) } } }

/// Per-case environment: a private scratch directory.
pub struct Env {
    pub dir: PathBuf,
    pub tier: Tier,
    n: Cell<u64>,
}

impl Env {
    pub fn new(tag: &str, tier: Tier) -> Env {
        let dir = scratch_root().join(tag);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch dir");
        Env { dir, tier, n: Cell::new(0) }
    }
    /// A fresh file path inside the scratch directory.
    pub fn path(&self) -> PathBuf {
        self.n.set(self.n.get() + 1);
        self.dir.join(format!("f{}.root", self.n.get()))
    }
    pub fn clear(&self) {
        if std::env::var_os("OXY_KEEP").is_some() {
            return;
        }
        if let Ok(rd) = std::fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() && !p.is_symlink() {
                    let _ = std::fs::remove_dir_all(&p);
                } else {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
        self.n.set(0);
    }
}

pub fn scratch_root() -> PathBuf {
    PathBuf::from(format!("/tmp/oxyverif.{}", std::process::id()))
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub known: Vec<Known>,
    /// trace file prefix: every case is written there before it runs
    pub trace: Option<PathBuf>,
    /// multiply the number of cases (deep background runs)
    pub scale: f64,
}

#[derive(Clone, Debug, serde::Deserialize)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
    #[serde(default)]
    pub sub: String,
    #[serde(default)]
    pub case: Value,
}

#[derive(Default)]
pub struct Report {
    pub sub: String,
    pub rule: String,
    pub evaluations: u64,
    pub checks: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub first_long: Option<String>,
    pub known_hits: BTreeMap<String, u64>,
    pub failure: Option<(Fail, Value)>,
    pub wall: f64,
}

pub trait SubCheck: Sync {
    fn name(&self) -> &'static str;
    fn run_all(&self, ctx: &Ctx) -> Report;
    fn replay(&self, ctx: &Ctx, case: &Value) -> Result<Res, String>;
}

pub struct Sub<C: 'static> {
    pub name: &'static str,
    /// what is generated and when a case counts as non-trivial
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    /// cases always run first
    pub fixed: fn(Tier) -> Vec<C>,
    pub gen: fn(Tier) -> BoxedStrategy<C>,
    pub run: fn(&C, &Env) -> Res,
    /// threads used (memory-hungry checks use fewer)
    pub shards: usize,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Run code of the library; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn hash64(s: &str) -> u64 {
    // FNV-1a
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(seed: u64, prop: &str, sub: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let h = hash64(&format!("{seed}/{prop}/{sub}/{shard}/{i}"));
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

impl<C> Sub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn run_one(&self, case: &C, env: &Env) -> Res {
        let r = match guard(|| (self.run)(case, env)) {
            Ok(r) => r,
            Err(p) => Err(Fail::new(p)),
        };
        env.clear();
        r
    }
}

struct Shard {
    rep: Report,
}

// ---------------------------------------------------------------- hang watch

/// A single case that runs this long is a hang: every case of every check takes well under 20 s.
const HANG_S: u64 = 300;

static RUNNING: Mutex<BTreeMap<String, (Instant, String, String, String)>> = Mutex::new(BTreeMap::new());

fn watch_begin(slot: &str, prop: &str, sub: &str, js: &str) {
    RUNNING.lock().unwrap().insert(slot.into(), (Instant::now(), prop.into(), sub.into(), js.into()));
}
fn watch_end(slot: &str) {
    RUNNING.lock().unwrap().remove(slot);
}

pub fn start_watchdog(verif: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let late = RUNNING.lock().unwrap().values().find(|v| v.0.elapsed().as_secs() > HANG_S).cloned();
        if let Some((_, prop, sub, js)) = late {
            let case: Value = serde_json::from_str(&js).unwrap_or(Value::Null);
            let f = Fail::new(format!("the case did not finish within {HANG_S} s"));
            let path = write_replay(&verif, &prop, &sub, &case, &f);
            println!("VIOLATION property={prop} replay={path}");
            println!("  {}", f.msg);
            let _ = std::fs::remove_dir_all(scratch_root());
            std::process::exit(1);
        }
    });
}

impl<C> SubCheck for Sub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run_all(&self, ctx: &Ctx) -> Report {
        let t0 = Instant::now();
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(usize, Shard)>> = Mutex::new(Vec::new());
        let total = if ctx.tier == Tier::Quick { self.quick } else { self.thorough };
        let total = ((total as f64) * ctx.scale) as u32;
        let nsh = self.shards.clamp(1, SHARDS);
        std::thread::scope(|sc| {
            for sh in 0..nsh {
                let stop = &stop;
                let results = &results;
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let r = self.run_shard(ctx, sh, nsh, total, stop);
                        results.lock().unwrap().push((sh, r));
                    })
                    .expect("spawn");
            }
        });
        let mut v = results.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        let mut rep = Report { sub: self.name.into(), rule: self.rule.into(), ..Default::default() };
        for (_, s) in v {
            let s = s.rep;
            rep.evaluations += s.evaluations;
            rep.checks += s.checks;
            rep.nontrivial.extend(s.nontrivial);
            for (k, n) in s.labels {
                *rep.labels.entry(k).or_default() += n;
            }
            for (k, n) in s.known_hits {
                *rep.known_hits.entry(k).or_default() += n;
            }
            if rep.samples.len() < 3 {
                rep.samples.extend(s.samples.into_iter().take(1));
            }
            if rep.first_long.is_none() {
                rep.first_long = s.first_long;
            }
            if rep.failure.is_none() {
                rep.failure = s.failure;
            }
        }
        if rep.samples.is_empty() {
            if let Some(l) = &rep.first_long {
                rep.samples.push(json!({"sub": self.name, "case_prefix": l}));
            }
        }
        rep.wall = t0.elapsed().as_secs_f64();
        rep
    }

    fn replay(&self, ctx: &Ctx, case: &Value) -> Result<Res, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("replay case: {e}"))?;
        let env = Env::new("replay", ctx.tier);
        Ok(self.run_one(&c, &env))
    }
}

impl<C> Sub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn run_shard(&self, ctx: &Ctx, sh: usize, nsh: usize, total: u32, stop: &AtomicBool) -> Shard {
        let env = Env::new(&format!("{}.{}", self.name, sh), ctx.tier);
        let rep = RefCell::new(Report::default());
        let failed = Cell::new(false);
        let slow: f64 = std::env::var("OXY_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
        let one = |c: &C| -> Result<(), Fail> {
            if stop.load(Ordering::Relaxed) && !failed.get() {
                return Ok(());
            }
            let js = serde_json::to_string(c).expect("case json");
            if let Some(t) = &ctx.trace {
                let p = t.join(format!("{}.{}.json", self.name, sh));
                let _ = std::fs::write(p, format!("{{\"property\":\"{}\",\"sub\":\"{}\",\"case\":{js}}}", ctx.prop, self.name));
            }
            let t = Instant::now();
            let slot = format!("{}.{}", self.name, sh);
            watch_begin(&slot, &ctx.prop, self.name, &js);
            let r = self.run_one(c, &env);
            watch_end(&slot);
            if slow > 0.0 && t.elapsed().as_secs_f64() > slow {
                eprintln!("SLOW {:.2}s {} {}", t.elapsed().as_secs_f64(), self.name, &js[..js.len().min(600)]);
            }
            let mut rp = rep.borrow_mut();
            match r {
                Ok(info) => {
                    if !failed.get() {
                        rp.evaluations += 1;
                        rp.checks += info.checks;
                        if info.nontrivial {
                            if rp.nontrivial.insert(hash64(&js)) && rp.samples.is_empty() {
                                if js.len() < 4000 {
                                    let v: Value = serde_json::from_str(&js).unwrap();
                                    rp.samples.push(json!({"sub": self.name, "case": v}));
                                } else {
                                    rp.first_long.get_or_insert_with(|| js.chars().take(1500).collect());
                                }
                            }
                        }
                        for l in info.labels {
                            *rp.labels.entry(l).or_default() += 1;
                        }
                    }
                    Ok(())
                }
                Err(f) => {
                    if !f.sig.is_empty() && ctx.known.iter().any(|k| k.property == ctx.prop && k.signature == f.sig) {
                        if !failed.get() {
                            rp.evaluations += 1;
                            *rp.known_hits.entry(f.sig).or_default() += 1;
                        }
                        return Ok(());
                    }
                    if !failed.get() {
                        rp.evaluations += 1;
                        failed.set(true);
                        stop.store(true, Ordering::Relaxed);
                    }
                    Err(f)
                }
            }
        };

        // cases that always run, spread over the shards
        for (i, c) in (self.fixed)(ctx.tier).into_iter().enumerate() {
            if i % nsh != sh || stop.load(Ordering::Relaxed) {
                continue;
            }
            if let Err(f) = one(&c) {
                rep.borrow_mut().failure = Some((f, serde_json::to_value(&c).unwrap()));
                return Shard { rep: rep.into_inner() };
            }
        }

        let cases = total / nsh as u32 + if (sh as u32) < total % nsh as u32 { 1 } else { 0 };
        if cases == 0 || stop.load(Ordering::Relaxed) {
            return Shard { rep: rep.into_inner() };
        }
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 60_000,
            max_global_rejects: cases.saturating_mul(4).max(1000),
            verbose: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx.seed, &ctx.prop, self.name, sh));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = (self.gen)(ctx.tier);
        let res = runner.run(&strat, |c| match one(&c) {
            Ok(()) => Ok(()),
            Err(f) => Err(TestCaseError::fail(f.msg)),
        });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                // run the minimal case once more for its exact failure
                let f = match self.run_one(&c, &env) {
                    Err(f) => f,
                    Ok(_) => Fail::new("failure did not reproduce on the minimal case"),
                };
                rep.borrow_mut().failure = Some((f, serde_json::to_value(&c).unwrap()));
            }
            Err(TestError::Abort(r)) => {
                eprintln!("generator of {} gave up: {r}", self.name);
                std::process::exit(3);
            }
        }
        Shard { rep: rep.into_inner() }
    }
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Box<dyn SubCheck>>,
    pub assumptions: &'static [&'static str],
}

pub fn load_known(path: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{path}: {e}");
            std::process::exit(3);
        }
    };
    v["findings"].as_array().map(|a| a.iter().map(|x| serde_json::from_value(x.clone()).expect("known finding")).collect()).unwrap_or_default()
}

pub fn run_property(p: &Property, ctx: &Ctx, verif: &str) -> i32 {
    let t0 = Instant::now();
    let only = std::env::var("OXY_SUB").ok();
    let mut reps: Vec<Report> = vec![];
    let mut code = 0;
    // the recorded findings, re-demonstrated
    for k in ctx.known.iter().filter(|k| k.property == p.id && !k.case.is_null()) {
        let Some(sub) = p.subs.iter().find(|s| s.name() == k.sub) else { continue };
        if only.as_deref().map_or(false, |o| o != sub.name()) {
            continue;
        }
        match sub.replay(ctx, &k.case) {
            Ok(Err(f)) if f.sig == k.signature => println!("KNOWN-FINDING: property={} {}", p.id, k.what),
            Ok(Err(f)) => {
                let path = write_replay(verif, p.id, sub.name(), &k.case, &f);
                println!("VIOLATION property={} replay={}", p.id, path);
                println!("  {}", f.msg);
                code = 1;
            }
            Ok(Ok(_)) => eprintln!("note: recorded finding no longer fails: {}", k.what),
            Err(e) => {
                eprintln!("{e}");
                return 3;
            }
        }
    }
    for s in &p.subs {
        if only.as_deref().map_or(false, |o| o != s.name()) {
            continue;
        }
        let r = s.run_all(ctx);
        eprintln!(
            "{} {}: {} cases, {} distinct non-trivial, {} comparisons, {:.1}s{}",
            p.id,
            r.sub,
            r.evaluations,
            r.nontrivial.len(),
            r.checks,
            r.wall,
            if r.failure.is_some() { " FAILED" } else { "" }
        );
        if let Some((f, c)) = &r.failure {
            let path = write_replay(verif, p.id, s.name(), c, f);
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {}: {}", s.name(), f.msg.chars().take(2000).collect::<String>());
            if !f.sig.is_empty() {
                println!("  signature: {}", f.sig);
            }
            code = 1;
        }
        let failed = r.failure.is_some();
        reps.push(r);
        if failed {
            break;
        }
    }
    write_evidence(p, ctx, &reps, t0.elapsed().as_secs_f64(), verif);
    code
}

fn write_replay(verif: &str, id: &str, sub: &str, case: &Value, f: &Fail) -> String {
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{sub}.json");
    let v = json!({"property": id, "sub": sub, "message": f.msg, "signature": f.sig, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn write_evidence(p: &Property, ctx: &Ctx, reps: &[Report], wall: f64, verif: &str) {
    let rule = reps.iter().map(|r| format!("[{}] {}", r.sub, r.rule)).collect::<Vec<_>>().join(" ");
    let subs: Vec<Value> = reps
        .iter()
        .map(|r| {
            json!({"sub": r.sub, "evaluations": r.evaluations, "distinct_nontrivial": r.nontrivial.len(),
                   "comparisons": r.checks, "classes": r.labels, "known_findings_hit": r.known_hits, "wall_s": r.wall})
        })
        .collect();
    let v = json!({
        "property": p.id,
        "tier": if ctx.tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": reps.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reps.iter().map(|r| r.nontrivial.len() as u64).sum::<u64>(),
            "comparisons": reps.iter().map(|r| r.checks).sum::<u64>(),
            "rule": rule,
            "samples": reps.iter().flat_map(|r| r.samples.iter().cloned()).collect::<Vec<_>>(),
            "per_subcheck": subs,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": reps.iter().filter(|r| r.failure.is_some()).count(),
    });
    let dir = format!("{verif}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&v).unwrap()).expect("evidence");
}
