//! The generated-input search engine shared by all checks.
//!
//! A check is a list of sub-checks. Every sub-check has a proptest strategy that makes
//! serialisable cases, and a test function which runs the case against the code in /repo and
//! compares it with an oracle. A failing case is shrunk, written to /verif/replays and reported.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a test function gets to describe the case it ran.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    known: Option<HashSet<String>>,
    known_hit: HashSet<String>,
}

impl Case {
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.into());
        }
    }
    /// Adds to a measured total (e.g. number of operations executed).
    pub fn count(&mut self, l: &str, n: u64) {
        *self.counts.entry(l.into()).or_default() += n;
    }
}

pub type TestResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANICS.with(|p| p.borrow_mut().push(format!("panic at {loc}: {msg}")));
        if std::env::var("FLV_SHOW_PANICS").is_ok() {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// Panics that happened on this thread since the last call, including those which the
/// async runtime swallowed.
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Runs an async block on a fresh single threaded runtime with virtual time.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(f)
}

/// Like [block_on], but with real time and I/O.
pub fn block_on_io<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap();
    rt.block_on(f)
}

/// Lets all tasks of a runtime from [block_on] run until nothing is left to do:
/// with a paused clock, the sleep only finishes when everything else is idle.
pub async fn idle() {
    tokio::time::sleep(Duration::from_micros(1)).await;
}

/// Removes everything from a broker, so that it can be dropped. A broker whose task panicked
/// doesn't answer anymore.
pub async fn unlink<I: flarch::broker::Message + 'static, O: flarch::broker::Message + 'static>(
    b: &mut flarch::broker::Broker<I, O>,
) {
    for i in 0..12 {
        if tokio::time::timeout(Duration::from_secs(1), b.remove_subsystem(i)).await.is_err() {
            return;
        }
    }
}

struct SubStat {
    name: String,
    rule: String,
    evaluations: u64,
    nontrivial: u64,
    distinct_nontrivial: u64,
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    wall_s: f64,
    time_capped: bool,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    scale: f64,
    only: Option<String>,
    replay: Option<(String, serde_json::Value)>,
    stats: Vec<SubStat>,
    violations: Vec<(String, PathBuf, String)>,
    known: BTreeMap<String, String>,
    known_hit: HashSet<String>,
    start: Instant,
    scratch: PathBuf,
    pub assumptions: Vec<String>,
    replay_ran: bool,
}

/// How many cases to run in which tier.
pub struct Spec<'a> {
    pub name: &'a str,
    pub rule: &'a str,
    pub quick: u64,
    pub thorough: u64,
    /// Upper bound on seconds for the quick tier; thorough gets ten times as much.
    pub max_s: u64,
}

fn hash_json(s: &str) -> u64 {
    let h: [u8; 32] = Sha256::digest(s.as_bytes()).into();
    u64::from_le_bytes(h[..8].try_into().unwrap())
}

fn subseed(parts: &[&str]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_le_bytes());
        h.update(p.as_bytes());
    }
    h.finalize().into()
}

struct Watch {
    since_ms: AtomicU64,
    cur: Mutex<String>,
}

const HANG_S: u64 = 100;

impl Ctx {
    pub fn new(id: &str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i64>().ok())
            .map(|s| s as u64)
            .unwrap_or(1);
        let scale = std::env::var("FLV_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .clamp(2, 8);
        let scratch = PathBuf::from(
            std::env::var("FLV_SCRATCH").unwrap_or(format!("/tmp/flv-{}", std::process::id())),
        );
        std::fs::create_dir_all(&scratch).ok();
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(format!("{VERIF}/KNOWN_FINDINGS.txt")) {
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix(&format!("known: property={id} key=")) {
                    let (key, desc) = rest.split_once(' ').unwrap_or((rest, ""));
                    known.insert(key.to_string(), desc.to_string());
                }
            }
        }
        Self {
            id: id.into(),
            tier,
            seed,
            threads,
            scale,
            only: std::env::var("FLV_ONLY").ok(),
            replay: None,
            stats: vec![],
            violations: vec![],
            known,
            known_hit: HashSet::new(),
            start: Instant::now(),
            scratch,
            assumptions: vec![],
            replay_ran: false,
        }
    }

    pub fn scratch(&self) -> &Path {
        &self.scratch
    }

    pub fn set_replay(&mut self, file: &Path) -> anyhow::Result<()> {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file)?)?;
        self.replay = Some((
            v["sub"].as_str().unwrap_or_default().to_string(),
            v["case"].clone(),
        ));
        Ok(())
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// Runs one listed known finding: `fails` returns true if it still fails as described.
    /// A failure that isn't listed is a violation.
    pub fn probe_known(&mut self, key: &str, case: serde_json::Value, fails: impl FnOnce() -> bool) {
        if self.replay.is_some() {
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(fails));
        take_panics();
        if r.unwrap_or(true) {
            if self.known.contains_key(key) {
                self.known_hit.insert(key.into());
            } else {
                let p = self.write_replay(key, &case, "known-finding probe fails, but it isn't listed");
                self.violations.push((key.into(), p, "unlisted finding".into()));
            }
        }
    }

    fn write_replay(&self, sub: &str, case: &serde_json::Value, msg: &str) -> PathBuf {
        let dir = PathBuf::from(format!("{VERIF}/replays"));
        std::fs::create_dir_all(&dir).ok();
        let p = dir.join(format!("{}-{}.json", self.id, sub));
        let v = serde_json::json!({
            "property": self.id, "sub": sub, "seed": self.seed, "message": msg, "case": case,
            "how": format!("cd /verif && ./check {} --replay {}", self.id, p.display()),
        });
        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok();
        p
    }

    fn exec<V>(
        &self,
        test: &(dyn Fn(&V, &mut Case) -> TestResult + Sync),
        v: &V,
    ) -> (Case, TestResult) {
        let mut case = Case::default();
        case.known = Some(self.known.keys().cloned().collect());
        take_panics();
        let res = catch_unwind(AssertUnwindSafe(|| test(v, &mut case)));
        let panics = take_panics();
        let res = match res {
            Ok(Ok(())) if !panics.is_empty() => Err(panics.join("; ")),
            Ok(Err(e)) if !panics.is_empty() => Err(format!("{e} [{}]", panics.join("; "))),
            Ok(r) => r,
            Err(_) => Err(panics.join("; ")),
        };
        (case, res)
    }

    /// Runs one sub-check.
    pub fn sub<V, S>(
        &mut self,
        spec: Spec,
        regressions: Vec<V>,
        mk: impl Fn() -> S + Sync,
        test: impl Fn(&V, &mut Case) -> TestResult + Sync,
    ) where
        V: Serialize + DeserializeOwned + Debug + Clone + Send,
        S: Strategy<Value = V>,
    {
        if let Some((sub, case)) = self.replay.clone() {
            if sub == spec.name {
                self.replay_ran = true;
                match serde_json::from_value::<V>(case.clone()) {
                    Ok(v) => {
                        // Several times, as the iteration order of hash maps differs between runs.
                        let t0 = Instant::now();
                        let mut res = Ok(());
                        for _ in 0..100 {
                            res = self.exec(&test, &v).1;
                            if res.is_err() || t0.elapsed() > Duration::from_secs(20) {
                                break;
                            }
                        }
                        if let Err(e) = res {
                            let p = self.write_replay(spec.name, &case, &e);
                            self.violations.push((spec.name.into(), p, e));
                        }
                    }
                    Err(e) => {
                        eprintln!("Cannot read case: {e}");
                        std::process::exit(2);
                    }
                }
            }
            return;
        }
        if self.only.as_ref().is_some_and(|o| o != spec.name) {
            return;
        }
        let (cases, max_s) = match self.tier {
            Tier::Quick => (spec.quick, spec.max_s),
            Tier::Thorough => (spec.thorough, spec.max_s * 10),
        };
        let cases = ((cases as f64) * self.scale).ceil() as u64;
        let start = Instant::now();
        let deadline = start + Duration::from_secs(max_s);
        let threads = self.threads.min(cases.max(1) as usize);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let watches: Vec<Watch> = (0..threads)
            .map(|_| Watch {
                since_ms: AtomicU64::new(0),
                cur: Mutex::new(String::new()),
            })
            .collect();
        struct Acc {
            evals: u64,
            nontrivial: u64,
            distinct: HashSet<u64>,
            labels: BTreeMap<String, u64>,
            counts: BTreeMap<String, u64>,
            samples: Vec<serde_json::Value>,
            known_hit: HashSet<String>,
            fail: Option<(serde_json::Value, String)>,
            capped: bool,
        }
        let acc = Mutex::new(Acc {
            evals: 0,
            nontrivial: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            known_hit: HashSet::new(),
            fail: None,
            capped: false,
        });
        let this = &*self;
        let name = spec.name;
        let regressions = Mutex::new(regressions);
        let epoch = Instant::now();
        std::thread::scope(|sc| {
            let mut handles = vec![];
            for t in 0..threads {
                let (watches, stop, acc, mk, test, regressions) =
                    (&watches, &stop, &acc, &mk, &test, &regressions);
                let h = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let seed = subseed(&[
                            &this.seed.to_string(),
                            &this.id,
                            name,
                            &t.to_string(),
                        ]);
                        let mut runner = TestRunner::new_with_rng(
                            Config {
                                failure_persistence: None,
                                ..Config::default()
                            },
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                        );
                        let strat = mk();
                        let n = cases / threads as u64
                            + u64::from((t as u64) < cases % threads as u64);
                        let mut cur = std::fs::OpenOptions::new()
                            .create(true)
                            .write(true)
                            .truncate(true)
                            .open(this.scratch.join(format!("cur-{t}")))
                            .ok();
                        let mut run_one = |v: &V| -> (Case, TestResult) {
                            let js = serde_json::to_string(v).unwrap_or_default();
                            if let Some(f) = cur.as_mut() {
                                let head = format!("{name}\n{}\n", js.len());
                                let _ = f.seek(SeekFrom::Start(0));
                                let _ = f.write_all(format!("{head}{js}").as_bytes());
                            }
                            *watches[t].cur.lock().unwrap() = js;
                            watches[t].since_ms.store(
                                epoch.elapsed().as_millis() as u64 + 1,
                                Ordering::SeqCst,
                            );
                            let r = this.exec(test, v);
                            watches[t].since_ms.store(0, Ordering::SeqCst);
                            r
                        };
                        let record = |v: &V, case: Case, is_ok: bool| {
                            let js = serde_json::to_string(v).unwrap_or_default();
                            let mut a = acc.lock().unwrap();
                            a.evals += 1;
                            if is_ok && case.nontrivial {
                                a.nontrivial += 1;
                                a.distinct.insert(hash_json(&js));
                                if a.samples.len() < 3 && js.len() < 6000 {
                                    if let Ok(v) = serde_json::from_str(&js) {
                                        a.samples.push(v);
                                    }
                                }
                            }
                            for l in case.labels {
                                *a.labels.entry(l).or_default() += 1;
                            }
                            for (l, n) in case.counts {
                                *a.counts.entry(l).or_default() += n;
                            }
                            a.known_hit.extend(case.known_hit);
                        };
                        loop {
                            let r = regressions.lock().unwrap().pop();
                            let Some(v) = r else { break };
                            if stop.load(Ordering::Relaxed) {
                                return;
                            }
                            let (case, res) = run_one(&v);
                            record(&v, case, res.is_ok());
                            if let Err(e) = res {
                                stop.store(true, Ordering::Relaxed);
                                let mut a = acc.lock().unwrap();
                                if a.fail.is_none() {
                                    a.fail = Some((serde_json::to_value(&v).unwrap(), e));
                                }
                                return;
                            }
                        }
                        for _ in 0..n {
                            if stop.load(Ordering::Relaxed) {
                                return;
                            }
                            if Instant::now() > deadline {
                                acc.lock().unwrap().capped = true;
                                return;
                            }
                            let Ok(mut tree) = strat.new_tree(&mut runner) else {
                                continue;
                            };
                            let v = tree.current();
                            let (case, res) = run_one(&v);
                            record(&v, case, res.is_ok());
                            if let Err(e) = res {
                                if stop.swap(true, Ordering::SeqCst) {
                                    return;
                                }
                                // Shrink
                                let mut best = (v, e);
                                let until = Instant::now() + Duration::from_secs(40);
                                let mut iters = 0;
                                'shrink: while tree.simplify() {
                                    loop {
                                        iters += 1;
                                        if Instant::now() > until || iters > 20_000 {
                                            break 'shrink;
                                        }
                                        let v = tree.current();
                                        let (_, res) = run_one(&v);
                                        if let Err(e) = res {
                                            best = (v, e);
                                            break;
                                        }
                                        if !tree.complicate() {
                                            break 'shrink;
                                        }
                                    }
                                }
                                let mut a = acc.lock().unwrap();
                                if a.fail.is_none() {
                                    a.fail =
                                        Some((serde_json::to_value(&best.0).unwrap(), best.1));
                                }
                                return;
                            }
                        }
                    })
                    .unwrap();
                handles.push(h);
            }
            let (watches, done) = (&watches, &done);
            let wd = sc.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    for w in watches {
                        let since = w.since_ms.load(Ordering::SeqCst);
                        let now = epoch.elapsed().as_millis() as u64;
                        if since != 0 && now > since + HANG_S * 1000 {
                            let case = serde_json::from_str(&w.cur.lock().unwrap())
                                .unwrap_or(serde_json::Value::Null);
                            let msg = format!("case did not finish within {HANG_S} s");
                            let p = this.write_replay(name, &case, &msg);
                            println!("{name}: {msg}");
                            println!("VIOLATION property={} replay={}", this.id, p.display());
                            this.write_evidence(1);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in handles {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
            let _ = wd.join();
        });
        let a = acc.into_inner().unwrap();
        let wall_s = start.elapsed().as_secs_f64();
        println!(
            "{}/{}: {} cases, {} distinct non-trivial, {:.1}s{} {}",
            self.id,
            spec.name,
            a.evals,
            a.distinct.len(),
            wall_s,
            if a.capped { " (time cap)" } else { "" },
            a.labels
                .iter()
                .map(|(k, v)| format!("{k}={v}"))
                .chain(a.counts.iter().map(|(k, v)| format!("{k}:{v}")))
                .collect::<Vec<_>>()
                .join(" ")
        );
        self.known_hit.extend(a.known_hit);
        self.stats.push(SubStat {
            name: spec.name.into(),
            rule: spec.rule.into(),
            evaluations: a.evals,
            nontrivial: a.nontrivial,
            distinct_nontrivial: a.distinct.len() as u64,
            labels: a.labels,
            counts: a.counts,
            samples: a.samples,
            wall_s,
            time_capped: a.capped,
        });
        if let Some((case, msg)) = a.fail {
            let p = self.write_replay(spec.name, &case, &msg);
            self.violations.push((spec.name.into(), p, msg));
        }
    }

    fn write_evidence(&self, violations: u64) {
        let subs: Vec<_> = self
            .stats
            .iter()
            .map(|s| {
                serde_json::json!({
                    "name": s.name, "rule": s.rule, "evaluations": s.evaluations,
                    "nontrivial": s.nontrivial, "distinct_nontrivial": s.distinct_nontrivial,
                    "labels": s.labels, "totals": s.counts, "wall_s": s.wall_s,
                    "time_capped": s.time_capped,
                })
            })
            .collect();
        let samples: Vec<_> = self
            .stats
            .iter()
            .flat_map(|s| {
                s.samples
                    .iter()
                    .take(2)
                    .map(|v| serde_json::json!({"sub": s.name, "case": v}))
            })
            .collect();
        let v = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed as i64,
            "level": "exploration",
            "coverage": {
                "evaluations": self.stats.iter().map(|s| s.evaluations).sum::<u64>(),
                "distinct_nontrivial": self.stats.iter().map(|s| s.distinct_nontrivial).sum::<u64>(),
                "rule": self.stats.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect::<Vec<_>>().join(" | "),
                "samples": samples,
                "sub_checks": subs,
                "known_findings_seen": self.known_hit,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let dir = format!("{VERIF}/evidence");
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(
            format!("{dir}/{}.json", self.id),
            serde_json::to_string_pretty(&v).unwrap(),
        )
        .ok();
    }

    /// Prints the result and returns the exit code.
    pub fn finish(self) -> i32 {
        if self.replay.is_some() && !self.replay_ran {
            eprintln!("The replay file names no sub-check of {}", self.id);
            return 2;
        }
        if let Some(s) = self.stats.iter().find(|s| s.evaluations == 0) {
            if self.replay.is_none() && self.only.is_none() && self.violations.is_empty() {
                eprintln!("{} generated no case at all", s.name);
                return 2;
            }
        }
        if self.replay.is_none() && self.only.is_none() {
            self.write_evidence(self.violations.len() as u64);
        }
        for (k, d) in &self.known {
            if self.known_hit.contains(k) {
                println!("KNOWN-FINDING: property={} {k}: {d}", self.id);
            }
        }
        for (sub, p, msg) in &self.violations {
            println!("{sub}: {}", msg.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        if self.violations.is_empty() {
            println!("{}: held on everything explored", self.id);
            0
        } else {
            1
        }
    }
}

/// Runs the check in a child process, so that an abort or a stack overflow of the code under
/// test is reported as a violation with the case that was running.
pub fn supervise(id: &str, args: &[String]) -> i32 {
    let scratch = PathBuf::from(format!("/tmp/flv-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).ok();
    let exe = std::env::current_exe().unwrap();
    let run = |args: &[String]| {
        std::process::Command::new(&exe)
            .args(args)
            .env("FLV_WORKER", "1")
            .env("FLV_SCRATCH", &scratch)
            .status()
    };
    let code = match run(args) {
        Ok(s) => s.code(),
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            Some(2)
        }
    };
    let ret = match code {
        Some(c) => c,
        None => {
            // Died from a signal: find out which of the running cases did it.
            let mut found = None;
            let mut first = None;
            for t in 0..64 {
                let Ok(mut f) = std::fs::File::open(scratch.join(format!("cur-{t}"))) else {
                    continue;
                };
                let mut text = String::new();
                if f.read_to_string(&mut text).is_err() {
                    continue;
                }
                let mut it = text.splitn(3, '\n');
                let (Some(sub), Some(len), Some(js)) = (it.next(), it.next(), it.next()) else {
                    continue;
                };
                let len: usize = len.parse().unwrap_or(0);
                let Some(js) = js.get(..len) else { continue };
                let Ok(case) = serde_json::from_str::<serde_json::Value>(js) else {
                    continue;
                };
                let dir = PathBuf::from(format!("{VERIF}/replays"));
                std::fs::create_dir_all(&dir).ok();
                let p = dir.join(format!("{id}-{sub}-crash{t}.json"));
                let v = serde_json::json!({"property": id, "sub": sub,
                    "message": "the process died while running this case", "case": case});
                std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok();
                let st = run(&[id.to_string(), "--replay".into(), p.display().to_string()]);
                if matches!(&st, Ok(s) if s.code().is_none()) {
                    found = Some(p);
                    break;
                }
                if first.is_none() {
                    first = Some(p);
                } else {
                    std::fs::remove_file(&p).ok();
                }
            }
            match found {
                Some(p) => {
                    println!("the process died from a signal while running a case");
                    println!("VIOLATION property={id} replay={}", p.display());
                    1
                }
                None => {
                    eprintln!("worker died from a signal, no case reproduces it");
                    3
                }
            }
        }
    };
    std::fs::remove_dir_all(&scratch).ok();
    ret
}
