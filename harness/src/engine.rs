//! Engine: runs proptest strategies and bounded-exhaustive enumerations against check functions,
//! shrinks failures, writes replay and evidence files.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

/// A static table of byte string literals of different lengths.
#[macro_export]
macro_rules! lits {
    ($($x:expr),* $(,)?) => {{ const T: &[&[u8]] = &[$($x),*]; T }};
}

/// Byte string that prints and serialises readably.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct B(pub Vec<u8>);

impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "b\"{}\"", self.0.escape_ascii())
    }
}
impl Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.escape_ascii().to_string())
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        let s = s.as_bytes();
        let mut out = Vec::new();
        let mut i = 0;
        while i < s.len() {
            if s[i] != b'\\' {
                out.push(s[i]);
                i += 1;
                continue;
            }
            let c = *s.get(i + 1).ok_or_else(|| serde::de::Error::custom("bad escape"))?;
            i += 2;
            out.push(match c {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                b'x' => {
                    let h = std::str::from_utf8(&s[i..i + 2]).map_err(serde::de::Error::custom)?;
                    i += 2;
                    u8::from_str_radix(h, 16).map_err(serde::de::Error::custom)?
                }
                o => o,
            });
        }
        Ok(B(out))
    }
}
impl From<&[u8]> for B {
    fn from(b: &[u8]) -> B {
        B(b.to_vec())
    }
}
impl From<Vec<u8>> for B {
    fn from(b: Vec<u8>) -> B {
        B(b)
    }
}
impl std::ops::Deref for B {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

pub fn show(b: &[u8]) -> String {
    if b.len() <= 600 {
        format!("b\"{}\"", b.escape_ascii())
    } else {
        format!(
            "b\"{}\" ...[{} bytes]... b\"{}\"",
            b[..300].escape_ascii(),
            b.len(),
            b[b.len() - 200..].escape_ascii()
        )
    }
}

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + Hash + 'static {}
impl<T: Clone + Debug + Serialize + DeserializeOwned + Hash + 'static> Case for T {}

#[derive(Default)]
pub struct Ctx {
    labels: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    skipped: bool,
    on: bool,
}
impl Ctx {
    /// Classify the current case.
    pub fn label(&mut self, l: &'static str) {
        if self.on {
            *self.labels.entry(l).or_insert(0) += 1;
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn add(&mut self, l: &'static str, n: u64) {
        if self.on {
            *self.labels.entry(l).or_insert(0) += n;
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// The oracle leaves this case open: nothing was compared.
    pub fn skip(&mut self) {
        self.skipped = true;
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic: {msg}{loc}"));
        if QUIET.with(|q| q.get()) == 0 {
            eprintln!("harness panic: {msg}{loc}");
        }
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn run_check<C>(check: fn(&C, &mut Ctx) -> Result<(), String>, c: &C, ctx: &mut Ctx) -> Result<(), String> {
    crate::clock::reset();
    let r = catch(|| check(c, ctx));
    crate::clock::reset();
    match r {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub scale: f64,
    pub factor: f64,
    pub journal: Option<std::path::PathBuf>,
}

#[derive(Debug)]
pub struct Failure {
    pub sub: &'static str,
    pub case: Value,
    pub debug: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub skipped: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub exhaustive: bool,
    pub wall: f64,
}

pub trait Sub: Sync + Send {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, env: &Env) -> Report;
    fn replay(&self, case: &Value) -> Result<Result<(), String>, String>;
    fn exhaustive(&self) -> bool {
        false
    }
}

pub struct Prop<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub strat: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Ctx) -> Result<(), String>,
    pub quick: u32,
    pub thorough: u32,
}

pub struct Exh<C> {
    pub name: &'static str,
    pub rule: &'static str,
    /// enumerate(tier, shard, shards, f): calls f on this shard's cases until it returns false
    pub gen: fn(Tier, usize, usize, &mut dyn FnMut(C) -> bool),
    pub check: fn(&C, &mut Ctx) -> Result<(), String>,
}

fn hash_of<C: Hash>(c: &C) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    c.hash(&mut h);
    h.finish()
}

pub fn mix(seed: u64, parts: &[&str], n: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, w) in out.chunks_mut(8).enumerate() {
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        (seed, i as u64, n).hash(&mut h);
        for p in parts {
            p.hash(&mut h);
        }
        w.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

/// One slot per shard and one for single replays.
const SLOTS: usize = SHARDS + 1;
pub static PROGRESS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static TIDS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
static STOP: AtomicBool = AtomicBool::new(false);

/// Exit status of a worker in which a single case did not terminate.
pub const HUNG: i32 = 77;
/// Processor time after which a case counts as not terminating (the longest take about 3 s).
const CPU_LIMIT_S: f64 = 100.0;

thread_local!(static SLOT: Cell<Option<usize>> = const { Cell::new(None) });
fn watch_me(slot: usize) {
    SLOT.with(|s| s.set(Some(slot)));
    let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0);
    TIDS[slot].store(tid, Ordering::Relaxed);
}
/// Runs `f` in a thread of its own, so that nothing a thread keeps outlives it.
pub fn fresh<T: Send>(f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    let slot = SLOT.with(|s| s.get());
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                if let Some(i) = slot {
                    watch_me(i);
                }
                catch(f).and_then(|r| r)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("panic while a thread ends".into()))
    });
    if let Some(i) = slot {
        watch_me(i);
    }
    r
}
/// Runs `f` under the watchdog, outside the shards.
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
    watch_me(SHARDS);
    PROGRESS[SHARDS].fetch_add(1, Ordering::Relaxed);
    let r = f();
    TIDS[SHARDS].store(0, Ordering::Relaxed);
    r
}

fn cpu_of(tid: u64) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = t[t.rfind(')')? + 1..].split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

/// Ends the process when one case burns minutes of processor time.
pub fn start_watchdog(hung: fn(usize) -> i32) {
    std::thread::spawn(move || {
        let mut last = [(u64::MAX, 0.0f64, Instant::now()); SLOTS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..SLOTS {
                let tid = TIDS[i].load(Ordering::Relaxed);
                let v = PROGRESS[i].load(Ordering::Relaxed);
                let Some(cpu) = (tid != 0).then(|| cpu_of(tid)).flatten() else {
                    last[i] = (u64::MAX, 0.0, Instant::now());
                    continue;
                };
                if v != last[i].0 {
                    last[i] = (v, cpu, Instant::now());
                } else if cpu - last[i].1 > CPU_LIMIT_S {
                    eprintln!("a single case has used {CPU_LIMIT_S} s of processor time in {} shard {i}", CURRENT.lock().unwrap());
                    std::process::exit(hung(i));
                } else if last[i].2.elapsed() > Duration::from_secs(600) {
                    eprintln!("error: a single case has been running for 600 s in {} shard {i}: inconclusive", CURRENT.lock().unwrap());
                    std::process::exit(2);
                }
            }
        }
    });
}

/// A runaway allocation ends the worker, not the sandbox.
pub fn limit_memory() {
    extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let l = [16u64 << 30, 16 << 30];
    unsafe { setrlimit(RLIMIT_AS, &l) };
}

const SAMPLE_LEN: usize = 700;
fn sample<C: Case>(c: &C) -> Value {
    let v = serde_json::to_value(c).unwrap_or(Value::Null);
    let t = v.to_string();
    if t.len() > SAMPLE_LEN {
        let mut e = SAMPLE_LEN;
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        json!(format!("{}... [{} chars]", &t[..e], t.len()))
    } else {
        v
    }
}

struct Acc {
    ctx: Ctx,
    rep: Report,
    want: usize,
    next_sample: u64,
}
impl Acc {
    fn new(want: usize) -> Acc {
        Acc { ctx: Ctx { on: true, ..Ctx::default() }, rep: Report::default(), want, next_sample: 1 }
    }
    fn begin(&mut self) {
        self.ctx.nontrivial = false;
        self.ctx.skipped = false;
    }
    fn end<C: Case>(&mut self, c: &C) {
        self.rep.evaluations += 1;
        if self.ctx.skipped {
            self.rep.skipped += 1;
        }
        if self.ctx.nontrivial {
            self.rep.nontrivial += 1;
            self.rep.distinct.insert(hash_of(c));
            if self.rep.nontrivial == self.next_sample && self.rep.samples.len() < self.want {
                self.rep.samples.push(sample(c));
                self.next_sample = self.next_sample * 13 + 5;
            }
        }
    }
    fn finish(mut self) -> Report {
        self.rep.labels = std::mem::take(&mut self.ctx.labels);
        self.rep
    }
}

fn journal<C: Case>(env: &Env, sub: &str, shard: usize, c: &C) {
    if let Some(dir) = &env.journal {
        let v = json!({"property": env.id, "sub": sub, "case": c});
        let _ = std::fs::write(dir.join(format!("{shard}.json")), v.to_string());
    }
}

/// Debugging aid: reports cases that take long.
struct Slow<'a, C: Case>(&'a C, Instant);
impl<C: Case> Drop for Slow<'_, C> {
    fn drop(&mut self) {
        if self.1.elapsed() > Duration::from_millis(500) && std::env::var_os("YV_VERBOSE").is_some() {
            eprintln!("slow case, {:.2} s: {}", self.1.elapsed().as_secs_f64(), sample(self.0).to_string().chars().take(300).collect::<String>());
        }
    }
}

fn merge(reports: Vec<Report>) -> Report {
    let mut out = Report::default();
    for r in reports {
        out.evaluations += r.evaluations;
        out.skipped += r.skipped;
        out.nontrivial += r.nontrivial;
        out.distinct.extend(r.distinct);
        for (k, v) in r.labels {
            *out.labels.entry(k).or_insert(0) += v;
        }
        if out.samples.len() < 3 {
            out.samples.extend(r.samples.into_iter().take(1));
        }
        if out.failure.is_none() {
            out.failure = r.failure;
        }
    }
    out
}

fn in_shards(id: &str, sub: &str, f: impl Fn(usize) -> Report + Sync) -> Report {
    *CURRENT.lock().unwrap() = format!("{id}/{sub}");
    STOP.store(false, Ordering::Relaxed);
    let t = Instant::now();
    let reports: Vec<Report> = std::thread::scope(|s| {
        let f = &f;
        let hs: Vec<_> = (0..SHARDS)
            .map(|i| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        watch_me(i);
                        let r = f(i);
                        TIDS[i].store(0, Ordering::Relaxed);
                        r
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness shard panicked")).collect()
    });
    let mut r = merge(reports);
    r.wall = t.elapsed().as_secs_f64();
    r
}

impl<C: Case> Prop<C> {
    fn shard(&self, env: &Env, shard: usize, cases: u32) -> Report {
        let cfg = Config {
            cases,
            failure_persistence: None,
            source_file: None,
            max_shrink_iters: 50_000,
            max_shrink_time: 60_000,
            max_local_rejects: 1_000_000,
            max_global_rejects: 1_000_000,
            verbose: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(env.seed, &[env.id, self.name], shard as u64));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let acc = RefCell::new(Acc::new(2));
        let failed = Cell::new(false);
        let first: RefCell<Option<(C, String)>> = RefCell::new(None);
        let strat = (self.strat)();
        QUIET.with(|q| q.set(1));
        let res = runner.run(&strat, |case| {
            PROGRESS[shard].fetch_add(1, Ordering::Relaxed);
            if STOP.load(Ordering::Relaxed) && !failed.get() {
                return Ok(());
            }
            journal(env, self.name, shard, &case);
            let _slow = Slow(&case, Instant::now());
            let mut a = acc.borrow_mut();
            if failed.get() {
                // shrinking: do not count
                let mut scratch = Ctx::default();
                return run_check(self.check, &case, &mut scratch).map_err(TestCaseError::fail);
            }
            a.begin();
            match run_check(self.check, &case, &mut a.ctx) {
                Ok(()) => {
                    a.end(&case);
                    Ok(())
                }
                Err(m) => {
                    a.rep.evaluations += 1;
                    failed.set(true);
                    *first.borrow_mut() = Some((case.clone(), m.clone()));
                    Err(TestCaseError::fail(m))
                }
            }
        });
        QUIET.with(|q| q.set(0));
        let mut rep = acc.into_inner().finish();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, case)) => {
                STOP.store(true, Ordering::Relaxed);
                let (case, msg) = match run_check(self.check, &case, &mut Ctx::default()).err() {
                    Some(m) => (case, m),
                    // something kept from earlier cases plays a part: the first failing case stands as it was
                    None => first.into_inner().map(|(c, m)| (c, format!("{m} (only after the cases before it)"))).unwrap_or((case, "failure did not reproduce on the shrunk case".into())),
                };
                rep.failure = Some(Failure {
                    sub: self.name,
                    case: serde_json::to_value(&case).unwrap(),
                    debug: format!("{case:?}"),
                    msg,
                });
            }
            Err(TestError::Abort(r)) => panic!("generator aborted in {}: {}", self.name, r),
        }
        rep
    }
}

impl<C: Case> Sub for Prop<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn run(&self, env: &Env) -> Report {
        let quick = self.quick as f64 * env.factor;
        let n = match env.tier {
            Tier::Quick => quick,
            Tier::Thorough => (self.thorough as f64).max(4.0 * quick),
        };
        let n = ((n * env.scale) as u32).max(SHARDS as u32);
        in_shards(env.id, self.name, |i| self.shard(env, i, n / SHARDS as u32))
    }
    fn replay(&self, case: &Value) -> Result<Result<(), String>, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(run_check(self.check, &c, &mut Ctx::default()))
    }
}

impl<C: Case> Sub for Exh<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn run(&self, env: &Env) -> Report {
        let mut r = in_shards(env.id, self.name, |i| {
            let mut acc = Acc::new(2);
            let mut failure = None;
            QUIET.with(|q| q.set(1));
            (self.gen)(env.tier, i, SHARDS, &mut |case: C| {
                PROGRESS[i].fetch_add(1, Ordering::Relaxed);
                if STOP.load(Ordering::Relaxed) {
                    return false;
                }
                journal(env, self.name, i, &case);
                acc.begin();
                match run_check(self.check, &case, &mut acc.ctx) {
                    Ok(()) => {
                        // enumerated cases are distinct by construction: count, do not store
                        acc.rep.evaluations += 1;
                        if acc.ctx.nontrivial {
                            acc.rep.nontrivial += 1;
                            if acc.rep.nontrivial == acc.next_sample && acc.rep.samples.len() < acc.want {
                                acc.rep.samples.push(sample(&case));
                                acc.next_sample = acc.next_sample * 13 + 5;
                            }
                        }
                        true
                    }
                    Err(msg) => {
                        acc.rep.evaluations += 1;
                        failure = Some(Failure {
                            sub: self.name,
                            case: serde_json::to_value(&case).unwrap(),
                            debug: format!("{case:?}"),
                            msg,
                        });
                        STOP.store(true, Ordering::Relaxed);
                        false
                    }
                }
            });
            QUIET.with(|q| q.set(0));
            let mut r = acc.finish();
            r.failure = failure;
            r
        });
        r.exhaustive = true;
        r
    }
    fn replay(&self, case: &Value) -> Result<Result<(), String>, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(run_check(self.check, &c, &mut Ctx::default()))
    }
}
