//! Sharded, deterministic property runner on top of proptest.
//!
//! * A property is a list of sub-checks; a sub-check is a strategy, an oracle and case counts.
//! * `kv check ID` starts N worker processes (`kv shard ...`); each worker is a pure function of
//!   (code, VERIF_SEED, tier, shard). Workers are separate processes because the code under test
//!   prints a lot (one stdout lock) and may hang or abort.
//! * A failing case is shrunk by proptest, written out as a JSON replay file and re-executed in a
//!   fresh process, without the library, before it is reported.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What a check observed about one case: used for the evidence only.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub counts: Vec<(&'static str, u64)>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn add(&mut self, l: &'static str, n: u64) {
        if n > 0 {
            self.counts.push((l, n));
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
}

/// Runs code under test; a panic becomes an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn fnv(bytes: &[u8], seed: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub labels: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<Value>,
}

pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub message: String,
    /// The cases before the first failing one (in this process), and that one as generated: for
    /// failures that depend on what was called earlier.
    pub history: Vec<Value>,
}

pub struct ShardCtx {
    pub prop: &'static str,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub tier: Tier,
    pub scale: f64,
}

type RunFn = Box<dyn Fn(&ShardCtx, &mut Stats) -> Option<Failure> + Send + Sync>;
type ReplayFn = Box<dyn Fn(&Value) -> Res + Send + Sync>;

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: RunFn,
    pub replay: ReplayFn,
    pub hang_is_violation: bool,
}

impl Sub {
    pub fn must_terminate(mut self) -> Sub {
        self.hang_is_violation = true;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: &'static [&'static str],
}

// ---- hang watchdog (CPU time of the worker thread, never wall-clock) ----

struct Current {
    sub: &'static str,
    json: Vec<u8>,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
/// The last cases of this process.
static RECENT: Mutex<VecDeque<(&'static str, Vec<u8>)>> = Mutex::new(VecDeque::new());
const RECENT_CASES: usize = 512;
const RECENT_BYTES: usize = 16 << 20;
fn remember(sub: &'static str, js: Vec<u8>) {
    let mut r = RECENT.lock().unwrap();
    r.push_back((sub, js));
    while r.len() > RECENT_CASES {
        r.pop_front();
    }
    // (large cases are rare: the sum is only formed for them)
    if r.back().map_or(0, |x| x.1.len()) > RECENT_BYTES / RECENT_CASES {
        while r.iter().map(|x| x.1.len()).sum::<usize>() > RECENT_BYTES && r.len() > 1 {
            r.pop_front();
        }
    }
}
fn remembered() -> Vec<Value> {
    let r = RECENT.lock().unwrap();
    r.iter().map(|(sub, js)| json!({"sub": sub, "case": serde_json::from_slice::<Value>(js).unwrap_or(Value::Null)})).collect()
}
static CASE_SEQ: AtomicU64 = AtomicU64::new(0);
/// CPU seconds a single case may burn; the slowest cases need a few milliseconds.
const CASE_CPU_LIMIT_S: f64 = 20.0;

fn process_cpu() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

fn start_watchdog(out: PathBuf) {
    std::thread::spawn(move || {
        let mut seq = u64::MAX;
        let mut cpu0 = 0.0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = CASE_SEQ.load(Ordering::SeqCst);
            let c = process_cpu();
            if s != seq {
                seq = s;
                cpu0 = c;
            } else if c - cpu0 > CASE_CPU_LIMIT_S {
                let cur = CURRENT.lock().unwrap();
                if let Some(cur) = cur.as_ref() {
                    let case: Value = serde_json::from_slice(&cur.json).unwrap_or(Value::Null);
                    let v = json!({"hang": {"sub": cur.sub, "case": case,
                        "message": format!("does not terminate: one case used more than {} CPU seconds", CASE_CPU_LIMIT_S)}});
                    let _ = std::fs::write(&out, serde_json::to_vec(&v).unwrap());
                    unsafe { libc::_exit(3) }
                }
            }
        }
    });
}

/// Builds a sub-check. `cases` = total over all shards for (quick, thorough).
pub fn sub<C, S, F, G>(name: &'static str, rule: &'static str, cases: (u64, u64), strategy: F, check: G) -> Sub
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = C> + 'static,
    F: Fn(Tier) -> S + Send + Sync + 'static,
    G: Fn(&C, &mut Obs) -> Res + Send + Sync + Clone + 'static,
{
    let check2 = check.clone();
    let run: RunFn = Box::new(move |ctx, stats| {
        let total = (ctx.tier.pick(cases.0, cases.1) as f64 * ctx.scale) as u64;
        let mine = (total / ctx.shards + if ctx.shard < total % ctx.shards { 1 } else { 0 }) as u32;
        let seed_src = format!("{}/{}/{}/{}/{}", ctx.prop, name, ctx.seed, ctx.shard, ctx.tier.name());
        let mut seed = [0u8; 32];
        for i in 0..4 {
            seed[i * 8..i * 8 + 8].copy_from_slice(&fnv(seed_src.as_bytes(), i as u64 + 1).to_le_bytes());
        }
        let mut config = Config::default();
        config.cases = mine;
        config.failure_persistence = None;
        config.max_shrink_iters = 20_000;
        config.max_shrink_time = 0;
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = strategy(ctx.tier);
        let stats = RefCell::new(stats);
        let failed = RefCell::new(false);
        let history = RefCell::new(vec![]);
        let sample_at = [mine as u64 / 2, mine as u64 / 7];
        let r = runner.run(&strat, |case| {
            let js = serde_json::to_vec(&case).expect("case serialises");
            let h = fnv(&js, 0) ^ fnv(name.as_bytes(), 7);
            if !*failed.borrow() {
                remember(name, js.clone());
            }
            *CURRENT.lock().unwrap() = Some(Current { sub: name, json: js });
            CASE_SEQ.fetch_add(1, Ordering::SeqCst);
            let mut obs = Obs::default();
            let res = match guarded(|| check(&case, &mut obs)) {
                Ok(r) => r,
                Err(p) => Err(p),
            };
            if !*failed.borrow() {
                let mut st = stats.borrow_mut();
                st.evaluations += 1;
                for l in &obs.labels {
                    *st.labels.entry(format!("{}: {}", name, l)).or_insert(0) += 1;
                }
                for (l, n) in &obs.counts {
                    *st.labels.entry(format!("{}: {}", name, l)).or_insert(0) += n;
                }
                if obs.nontrivial {
                    *st.labels.entry(format!("{}: nontrivial", name)).or_insert(0) += 1;
                    let fresh = st.hashes.insert(h);
                    let n = st.labels[&format!("{}: nontrivial", name)];
                    if fresh && ctx.shard == 0 && (n == 3 || sample_at.contains(&n)) {
                        st.samples.push(json!({"sub": name, "case": serde_json::to_value(&case).unwrap()}));
                    }
                }
            }
            match res {
                Ok(()) => Ok(()),
                Err(m) => {
                    if !failed.replace(true) {
                        *history.borrow_mut() = remembered();
                    }
                    Err(TestCaseError::fail(m))
                }
            }
        });
        match r {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => Some(Failure {
                sub: name.to_string(),
                case: serde_json::to_value(&case).unwrap(),
                message: reason.message().to_string(),
                history: history.into_inner(),
            }),
            Err(TestError::Abort(reason)) => Some(Failure {
                sub: name.to_string(),
                case: Value::Null,
                message: format!("harness abort: {}", reason.message()),
                history: vec![],
            }),
        }
    });
    let replay: ReplayFn = Box::new(move |v| {
        let case: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay case: {}", e))?;
        let mut obs = Obs::default();
        match guarded(|| check2(&case, &mut obs)) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    });
    Sub { name, rule, run, replay, hang_is_violation: false }
}

// ---- worker ----

pub fn run_shard(prop: &Prop, ctx: &ShardCtx, only: Option<&str>, out: &Path) -> i32 {
    install_panic_hook();
    start_watchdog(out.to_path_buf());
    let mut stats = Stats::default();
    let mut failure = None;
    let mut times = BTreeMap::new();
    for s in &prop.subs {
        if let Some(o) = only {
            if o != s.name {
                continue;
            }
        }
        let t = Instant::now();
        if let Some(f) = (s.run)(ctx, &mut stats) {
            failure = Some(f);
            break;
        }
        times.insert(s.name, t.elapsed().as_secs_f64());
    }
    let mut hb = Vec::with_capacity(stats.hashes.len() * 8);
    for h in &stats.hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.with_extension("hashes"), hb).expect("write hashes");
    let v = json!({
        "evaluations": stats.evaluations,
        "labels": stats.labels,
        "samples": stats.samples,
        "times": times,
        "failure": failure.map(|f| json!({"sub": f.sub, "case": f.case, "message": f.message, "history": f.history})),
    });
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).expect("write shard result");
    0
}

// ---- parent ----

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("KV_DIR") {
        return PathBuf::from(d);
    }
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("kv-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch dir");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, PartialEq)]
enum ReplayOutcome {
    Pass,
    Fail(String),
    Hang,
    Error(String),
}

/// Re-executes one case in a fresh process, with a CPU-time limit.
fn replay_in_child(prop: &str, sub: &str, case: &Value, cpu_limit: u64, dir: &Path) -> ReplayOutcome {
    replay_value(&json!({"property": prop, "sub": sub, "case": case}), cpu_limit, dir)
}
/// A replay is a single case or a sequence of cases for one process.
fn replay_value(replay: &Value, cpu_limit: u64, dir: &Path) -> ReplayOutcome {
    use std::os::unix::process::CommandExt;
    let f = dir.join("replay-case.json");
    let o = dir.join("replay-out.json");
    let _ = std::fs::remove_file(&o);
    std::fs::write(&f, serde_json::to_vec(replay).unwrap()).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("replay-child").arg(&f).arg(&o).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu_limit, rlim_max: cpu_limit };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let st = cmd.status().expect("spawn replay");
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(libc::SIGXCPU) | Some(libc::SIGKILL) => return ReplayOutcome::Hang,
        Some(s) => return ReplayOutcome::Error(format!("killed by signal {}", s)),
        None => {}
    }
    let mut s = String::new();
    match std::fs::File::open(&o).and_then(|mut h| h.read_to_string(&mut s)) {
        Ok(_) => {
            let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
            match v["result"].as_str() {
                Some("pass") => ReplayOutcome::Pass,
                Some("fail") => ReplayOutcome::Fail(v["message"].as_str().unwrap_or("").to_string()),
                _ => ReplayOutcome::Error("unreadable replay result".into()),
            }
        }
        Err(e) => ReplayOutcome::Error(format!("no replay result: {} (status {:?})", e, st)),
    }
}

pub fn replay_child(props: &[Prop], file: &Path, out: &Path) -> i32 {
    install_panic_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("read replay")).expect("parse replay");
    let p = props.iter().find(|p| Some(p.id) == v["property"].as_str()).expect("property");
    let steps = v["sequence"].as_array().cloned().unwrap_or_else(|| vec![v.clone()]);
    let mut r = json!({"result": "pass"});
    for (k, step) in steps.iter().enumerate() {
        let s = p.subs.iter().find(|s| Some(s.name) == step["sub"].as_str()).expect("sub-check");
        if let Err(m) = (s.replay)(&step["case"]) {
            let m = if steps.len() > 1 { format!("{} (case {} of a sequence in one process)", m, k + 1) } else { m };
            r = json!({"result": "fail", "message": m});
            break;
        }
    }
    std::fs::write(out, serde_json::to_vec(&r).unwrap()).unwrap();
    0
}

/// The shortest suffix of a history that fails when it is run in one process, without the cases it
/// does not need.
fn shrink_history(prop: &str, history: &[Value], dir: &Path) -> Option<(Vec<Value>, String)> {
    let fails = |h: &[Value]| match replay_value(&json!({"property": prop, "sequence": h}), 300, dir) {
        ReplayOutcome::Fail(m) => Some(m),
        _ => None,
    };
    let mut k = 2;
    let (mut best, mut message) = loop {
        let tail = &history[history.len().saturating_sub(k)..];
        if let Some(m) = fails(tail) {
            break (tail.to_vec(), m);
        }
        if k >= history.len() {
            return None;
        }
        k *= 2;
    };
    let mut budget = 150;
    let mut chunk = best.len() / 2;
    while chunk > 0 {
        let mut i = 0;
        while i + chunk < best.len() && budget > 0 {
            let mut t = best.clone();
            t.drain(i..i + chunk);
            budget -= 1;
            if let Some(m) = fails(&t) {
                best = t;
                message = m;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    Some((best, message))
}

/// Delta-debugging for a hanging case: tries dropping array elements anywhere in the JSON case.
fn shrink_hang(prop: &str, sub: &str, case: &Value, dir: &Path) -> Value {
    fn variants(v: &Value) -> Vec<Value> {
        let mut out = vec![];
        match v {
            Value::Array(a) => {
                if a.len() > 2 {
                    for i in 0..a.len() {
                        let mut b = a.clone();
                        b.remove(i);
                        out.push(Value::Array(b));
                    }
                }
                for (i, x) in a.iter().enumerate() {
                    if matches!(x, Value::Array(_) | Value::Object(_)) {
                        for y in variants(x) {
                            let mut b = a.clone();
                            b[i] = y;
                            out.push(Value::Array(b));
                        }
                    }
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    for y in variants(x) {
                        let mut b = m.clone();
                        b.insert(k.clone(), y);
                        out.push(Value::Object(b));
                    }
                }
            }
            _ => {}
        }
        out
    }
    let mut best = case.clone();
    let mut budget = 40;
    'outer: loop {
        for v in variants(&best) {
            if budget == 0 {
                break 'outer;
            }
            budget -= 1;
            if replay_in_child(prop, sub, &v, 2, dir) == ReplayOutcome::Hang {
                best = v;
                continue 'outer;
            }
        }
        break;
    }
    best
}

/// Factor on the case counts of a property's sub-checks, so that a quick run takes around ten
/// seconds on 8 cores and a thorough one several minutes. The work is fixed, never timed.
fn budget(id: &str, tier: Tier) -> f64 {
    let (q, t) = match id {
        "A09" => (1.0, 1.0),
        "G01" | "G02" | "G03" => (1.0, 1.0),
        "G08" | "G10" => (4.0, 2.0),
        "P05" => (6.0, 2.0),
        _ => match &id[..1] {
            "A" => (8.0, 6.0),
            "F" => (5.0, 5.0),
            "P" => (16.0, 10.0),
            "U" => (12.0, 8.0),
            _ => (2.0, 1.2),
        },
    };
    tier.pick(q, t)
}

/// Runs one worker again; its failure.
fn rerun_shard(prop: &str, run: &Value, dir: &Path) -> Option<Value> {
    let out = dir.join("again.json");
    let n = |k: &str| run[k].as_u64().unwrap_or(0).to_string();
    let t = |k: &str| run[k].as_str().unwrap_or("").to_string();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("shard").arg(prop).arg(n("shard")).arg(n("shards")).arg(n("seed")).arg(t("tier")).arg(t("scale")).arg(&out);
    if !t("only").is_empty() {
        cmd.arg(t("only"));
    }
    cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
    let v: Value = serde_json::from_slice(&std::fs::read(&out).ok()?).ok()?;
    Some(v["failure"].clone()).filter(|f| f.is_object())
}

pub fn run_check(props: &[Prop], prop: &Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let shards: u64 = std::env::var("KV_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let extra: f64 = std::env::var("KV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let scale = format!("{}", extra * budget(prop.id, tier));
    let only = std::env::var("KV_ONLY").unwrap_or_default();
    let dir = verif_dir();
    let scratch = Scratch::new(prop.id);
    let _ = props;

    let mut violation: Option<(String, Value, String)> = None;
    let mut error: Option<String> = None;

    // 1. Saved inputs of earlier findings.
    let mut regress = 0u64;
    let rdir = dir.join("regress").join(prop.id);
    if let Ok(rd) = std::fs::read_dir(&rdir) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect();
        files.sort();
        for f in files {
            let v: Value = serde_json::from_slice(&std::fs::read(&f).unwrap()).expect("regress file");
            let sub = v["sub"].as_str().unwrap().to_string();
            regress += 1;
            match replay_in_child(prop.id, &sub, &v["case"], 60, &scratch.0) {
                ReplayOutcome::Pass => {}
                ReplayOutcome::Fail(m) => {
                    violation.get_or_insert((sub, v["case"].clone(), format!("saved input {}: {}", f.display(), m)));
                }
                ReplayOutcome::Hang => {
                    let hv = prop.subs.iter().any(|s| s.name == sub && s.hang_is_violation);
                    if hv {
                        violation.get_or_insert((sub, v["case"].clone(), "does not terminate".into()));
                    } else {
                        error.get_or_insert(format!("saved input {} hangs", f.display()));
                    }
                }
                ReplayOutcome::Error(e) => {
                    error.get_or_insert(format!("saved input {}: {}", f.display(), e));
                }
            }
        }
    }

    // 2. Generated cases.
    let mut evaluations = regress;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut times: BTreeMap<String, f64> = BTreeMap::new();
    let mut hangs: Vec<(String, Value, String)> = vec![];
    let mut fails: Vec<(String, Value, String, Vec<Value>, usize)> = vec![];
    let mut sequence: Option<Value> = None;
    if violation.is_none() && error.is_none() {
        let mut children = vec![];
        for i in 0..shards {
            let out = scratch.0.join(format!("shard{}.json", i));
            let mut cmd = Command::new(std::env::current_exe().unwrap());
            cmd.arg("shard").arg(prop.id).arg(i.to_string()).arg(shards.to_string()).arg(seed.to_string()).arg(tier.name()).arg(&scale).arg(&out);
            if !only.is_empty() {
                cmd.arg(&only);
            }
            cmd.stdin(Stdio::null()).stdout(Stdio::null());
            let err = std::fs::File::create(out.with_extension("err")).unwrap();
            cmd.stderr(err);
            children.push((out, cmd.spawn().expect("spawn shard")));
        }
        let limit = Duration::from_secs(match tier {
            Tier::Quick => 780,
            Tier::Thorough => 6 * 3600,
        });
        for (shard, (out, mut ch)) in children.into_iter().enumerate() {
            let st = loop {
                match ch.try_wait().expect("wait") {
                    Some(st) => break Some(st),
                    None if t0.elapsed() > limit => {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break None;
                    }
                    None => std::thread::sleep(Duration::from_millis(20)),
                }
            };
            let bytes = std::fs::read(&out).unwrap_or_default();
            let v: Value = match serde_json::from_slice(&bytes) {
                Ok(v) => v,
                Err(_) => {
                    let errtxt = std::fs::read_to_string(out.with_extension("err")).unwrap_or_default();
                    let tail: String = errtxt.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
                    error.get_or_insert(match st {
                        None => "time budget used up (inconclusive)".to_string(),
                        Some(s) => format!("worker gave no result ({:?}) {}", s, tail),
                    });
                    continue;
                }
            };
            if v["hang"].is_object() {
                let h = &v["hang"];
                hangs.push((h["sub"].as_str().unwrap().into(), h["case"].clone(), h["message"].as_str().unwrap().into()));
                continue;
            }
            evaluations += v["evaluations"].as_u64().unwrap();
            for (k, n) in v["labels"].as_object().unwrap() {
                *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
            }
            for (k, n) in v["times"].as_object().unwrap() {
                let e = times.entry(k.clone()).or_insert(0.0);
                *e = e.max(n.as_f64().unwrap());
            }
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            let hb = std::fs::read(out.with_extension("hashes")).unwrap();
            for c in hb.chunks_exact(8) {
                let mut b = [0u8; 8];
                b.copy_from_slice(c);
                hashes.insert(u64::from_le_bytes(b));
            }
            if v["failure"].is_object() {
                let f = &v["failure"];
                if f["case"].is_null() {
                    error.get_or_insert(f["message"].as_str().unwrap().to_string());
                } else {
                    fails.push((f["sub"].as_str().unwrap().into(), f["case"].clone(), f["message"].as_str().unwrap().into(), f["history"].as_array().cloned().unwrap_or_default(), shard));
                }
            }
        }
        fails.sort_by_key(|f| serde_json::to_string(&f.1).unwrap().len());
        // Confirm in a fresh process, without the library.
        for f in &fails {
            match replay_in_child(prop.id, &f.0, &f.1, 120, &scratch.0) {
                ReplayOutcome::Fail(m) => {
                    violation = Some((f.0.clone(), f.1.clone(), m));
                    break;
                }
                o => {
                    error.get_or_insert(format!("failure of {} did not reproduce ({:?}): {} case {}", f.0, o, f.2, f.1));
                }
            }
        }
        if violation.is_none() {
            // It may depend on the calls before it: the same cases in one process ...
            for f in fails.iter().take(3) {
                if let Some((h, m)) = shrink_history(prop.id, &f.3, &scratch.0) {
                    violation = Some((f.0.clone(), h.last().map_or(Value::Null, |x| x["case"].clone()), m));
                    sequence = Some(json!({"sequence": h}));
                    break;
                }
            }
        }
        if violation.is_none() {
            // ... or everything that worker did, which is fixed by the seed.
            if let Some(f) = fails.first() {
                let run = json!({"shard": f.4, "shards": shards, "seed": seed, "tier": tier.name(), "scale": scale, "only": only});
                match rerun_shard(prop.id, &run, &scratch.0) {
                    Some(x) if x["history"] == json!(f.3) => {
                        violation = Some((f.0.clone(), f.1.clone(), format!("{} (after the calls before it in one process)", f.2)));
                        sequence = Some(json!({"worker": run}));
                    }
                    _ => {}
                }
            }
        }
        if violation.is_none() {
            for (sub, case, msg) in hangs {
                let hv = prop.subs.iter().any(|s| s.name == sub && s.hang_is_violation);
                if hv && replay_in_child(prop.id, &sub, &case, 20, &scratch.0) == ReplayOutcome::Hang {
                    let small = shrink_hang(prop.id, &sub, &case, &scratch.0);
                    violation = Some((sub, small, msg));
                    break;
                } else {
                    error.get_or_insert(format!("{}: {} case {}", sub, msg, case));
                }
            }
        }
    }

    // 3. Evidence and verdict.
    let wall = t0.elapsed().as_secs_f64();
    samples.truncate(24);
    let rules: Vec<String> = prop.subs.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect();
    let ev = json!({
        "property": prop.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": rules.join(" | "),
            "samples": samples,
            "labels": labels,
            "saved_inputs_replayed": regress,
            "seconds_per_subcheck": times,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let evp = dir.join("evidence").join(format!("{}.json", prop.id));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    std::fs::write(&evp, serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");

    if let Some((sub, case, msg)) = violation {
        let rd = dir.join("out").join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let mut js = json!({"property": prop.id, "sub": sub, "case": case, "message": msg});
        if let Some(Value::Object(m)) = sequence {
            for (k, v) in m {
                js[k] = v;
            }
        }
        let text = serde_json::to_string_pretty(&js).unwrap();
        let f = rd.join(format!("{}-{}-{:08x}.json", prop.id, sub, fnv(text.as_bytes(), 0) as u32));
        std::fs::write(&f, text).expect("write replay");
        println!("{} {}: {}", prop.id, sub, msg);
        println!("  case: {}", serde_json::to_string(&case).unwrap());
        println!("VIOLATION property={} replay={}", prop.id, f.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR property={} {}", prop.id, e);
        return 2;
    }
    println!(
        "OK property={} tier={} seed={} cases={} distinct_nontrivial={} saved={} wall={:.1}s",
        prop.id, tier.name(), seed, evaluations, hashes.len(), regress, wall
    );
    let _ = std::io::stdout().flush();
    0
}

pub fn run_replay(props: &[Prop], file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("read replay")).expect("parse replay");
    let id = v["property"].as_str().unwrap();
    let sub = v["sub"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).expect("property");
    let scratch = Scratch::new("replay");
    if v["worker"].is_object() {
        return match rerun_shard(id, &v["worker"], &scratch.0) {
            Some(f) => {
                println!("{}\nVIOLATION property={} replay={}", f["message"].as_str().unwrap_or(""), id, file.display());
                1
            }
            None => {
                println!("PASS property={} sub={}", id, sub);
                0
            }
        };
    }
    match replay_value(&v, 120, &scratch.0) {
        ReplayOutcome::Pass => {
            println!("PASS property={} sub={}", id, sub);
            0
        }
        ReplayOutcome::Fail(m) => {
            println!("{}\nVIOLATION property={} replay={}", m, id, file.display());
            1
        }
        ReplayOutcome::Hang if p.subs.iter().any(|s| s.name == sub && s.hang_is_violation) => {
            println!("does not terminate\nVIOLATION property={} replay={}", id, file.display());
            1
        }
        o => {
            println!("ERROR {:?}", o);
            2
        }
    }
}

/// Generates one value with a given runner (used by `kv sample`).
pub fn sample_values<S: Strategy>(s: &S, n: usize) -> Vec<S::Value> {
    let mut r = TestRunner::deterministic();
    (0..n).map(|_| s.new_tree(&mut r).unwrap().current()).collect()
}
