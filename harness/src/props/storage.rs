//! C21: the storage is a map. C22: a crash or a full disk loses nothing which was stored.

use crate::fw::{Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::data_storage::{DataStorage, DataStorageFile, DataStorageTemp};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// A directory of its own for each case
struct Dir(PathBuf);

impl Dir {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = PathBuf::from(std::env::var("FLV_SCRATCH").expect("scratch directory"))
            .join(format!("d{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set(u8, u8, u8),
    Get(u8, u8),
    Remove(u8, u8),
    /// Another handle to the same storage
    Clone(u8),
    /// Started again from the files
    Reopen(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    keys: Vec<String>,
    values: Vec<String>,
    ops: Vec<Op>,
}

/// A key is the end of a file name, so it has no slash and isn't too long.
fn key() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop_oneof![
            Just("nodeConfig"), Just("DHTStorage"), Just("Gossip"), Just("a"), Just("A"), Just("a_a"), Just("a.b"),
            Just("a."), Just("a.yaml"), Just("a.tmp"), Just("a.yaml.tmp"), Just("one_a"), Just(""), Just(" a"), Just("..a"), Just("a~"), Just("é")
        ].prop_map(String::from),
        2 => "[a-zA-Z0-9 ._:+-]{0,40}",
        1 => "[^/\\x00]{0,20}".prop_filter("UTF-8 length", |s| s.len() < 120),
    ]
    .boxed()
}

fn value() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        4 => "[ -~]{0,40}",
        2 => "(?s).{0,60}",
        1 => prop_oneof![Just("\r\n \r"), Just("\0"), Just("\u{feff}a"), Just("\n\n")].prop_map(String::from),
        2 => (1usize..200_000, any::<u8>()).prop_map(|(n, c)| ((b' ' + c % 90) as char).to_string().repeat(n)),
        1 => (1usize..30_000).prop_map(|n| "ü€".repeat(n)),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<In> {
    (
        prop::collection::vec(key(), 1..6),
        prop::collection::vec(value(), 1..8),
        prop::collection::vec(
            prop_oneof![
                6 => any::<(u8, u8, u8)>().prop_map(|(a, k, v)| Op::Set(a, k, v)),
                4 => any::<(u8, u8)>().prop_map(|(a, k)| Op::Get(a, k)),
                3 => any::<(u8, u8)>().prop_map(|(a, k)| Op::Remove(a, k)),
                2 => any::<u8>().prop_map(Op::Clone),
                2 => any::<u8>().prop_map(Op::Reopen),
            ],
            1..50,
        ),
    )
        .prop_map(|(keys, values, ops)| In { keys, values, ops })
        .boxed()
}

type Store = Box<dyn DataStorage + Send>;

/// The separate storages: two in memory, and files with different names and directories.
const STORES: usize = 6;
const FILES: [(usize, &str, &str); 4] = [
    (2, "x", "one"),
    (3, "x", "two"),
    (4, "x", ""),
    (5, "x/deep/y", "one"),
];

fn open(d: &Dir, i: usize) -> Option<Store> {
    let (_, sub, base) = FILES.iter().find(|f| f.0 == i)?;
    Some(Box::new(DataStorageFile::new(
        d.0.join(sub).to_string_lossy().to_string(),
        base.to_string(),
    )))
}

fn run_map(x: &In, c: &mut Case) -> TestResult {
    let d = Dir::new();
    let mut handles: Vec<(usize, Store)> = (0..STORES)
        .map(|i| {
            (
                i,
                open(&d, i).unwrap_or_else(|| {
                    if i == 0 {
                        DataStorageTemp::new_box()
                    } else {
                        Box::new(DataStorageTemp::new())
                    }
                }),
            )
        })
        .collect();
    let keys: Vec<String> = x.keys.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
    let mut model: BTreeMap<(usize, String), String> = BTreeMap::new();
    let mut sets = 0;
    for op in &x.ops {
        let n = handles.len();
        match op {
            Op::Set(a, k, v) => {
                let (s, h) = &mut handles[*a as usize % n];
                let (k, v) = (&keys[*k as usize % keys.len()], &x.values[*v as usize % x.values.len()]);
                h.set(k, v).map_err(|e| format!("cannot set {k:?}: {e}"))?;
                if model.insert((*s, k.clone()), v.clone()).is_some() {
                    sets += 1;
                }
            }
            Op::Get(a, k) => {
                let (s, h) = &handles[*a as usize % n];
                let k = &keys[*k as usize % keys.len()];
                let got = h.get(k).map_err(|e| format!("cannot get {k:?}: {e}"))?;
                ensure!(
                    got == model.get(&(*s, k.clone())).cloned().unwrap_or_default(),
                    "storage {s} has another value for {k:?} than was set"
                );
            }
            Op::Remove(a, k) => {
                let (s, h) = &mut handles[*a as usize % n];
                let k = &keys[*k as usize % keys.len()];
                let had = model.remove(&(*s, k.clone())).is_some();
                h.remove(k)
                    .map_err(|e| format!("cannot remove {k:?} (stored: {had}): {e}"))?;
                c.label_if(!had, "remove of a missing key");
            }
            Op::Clone(a) => {
                if n < 20 {
                    let (s, h) = &handles[*a as usize % n];
                    let h = (*s, h.clone_box());
                    handles.push(h);
                }
            }
            Op::Reopen(a) => {
                let i = *a as usize % n;
                let s = handles[i].0;
                if let Some(h) = open(&d, s) {
                    handles[i].1 = h;
                }
            }
        }
    }
    for (s, h) in &handles {
        for k in &keys {
            let got = h.get(k).map_err(|e| format!("cannot get {k:?}: {e}"))?;
            ensure!(
                got == model.get(&(*s, k.clone())).cloned().unwrap_or_default(),
                "in the end, storage {s} has another value for {k:?} than was set"
            );
        }
    }
    c.nontrivial(sets > 0 && model.len() > 1);
    Ok(())
}

pub fn run_storage(ctx: &mut Ctx) {
    ctx.assume("keys are parts of file names: no slash, no NUL, not longer than a file name may be");
    ctx.sub(
        Spec {
            name: "map",
            rule: "up to 50 operations through up to 20 handles on six separate storages in memory and in files; non-trivial: a value was replaced and two are stored",
            quick: 30_000,
            thorough: 1_500_000,
            max_s: 60,
        },
        vec![],
        strat,
        run_map,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Set(String, String),
    Remove(String),
    Config,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crash {
    before: Vec<COp>,
    ops: Vec<COp>,
    kill: bool,
    part: u64,
}

#[derive(Serialize)]
struct Script<'a> {
    dir: String,
    base: &'a str,
    ops: &'a [COp],
    at: i64,
    kill: bool,
    part: u64,
}

fn cop() -> BoxedStrategy<COp> {
    let k = || prop_oneof![Just("DHTStorage"), Just("Gossip"), Just("a")].prop_map(String::from);
    let v = || {
        prop_oneof![
            3 => "[ -~]{0,40}",
            2 => (1usize..60_000, any::<u8>()).prop_map(|(n, c)| ((b'a' + c % 26) as char).to_string().repeat(n)),
            1 => (1usize..3_000).prop_map(|n| "ü€".repeat(n)),
        ]
    };
    prop_oneof![
        6 => (k(), v()).prop_map(|(k, v)| COp::Set(k, v)),
        1 => k().prop_map(COp::Remove),
        2 => Just(COp::Config),
    ]
    .boxed()
}

fn strat_crash() -> BoxedStrategy<Crash> {
    (
        prop::collection::vec(cop(), 0..5),
        prop::collection::vec(cop(), 1..5),
        any::<bool>(),
        0u64..257,
    )
        .prop_map(|(before, ops, kill, part)| Crash { before, ops, kill, part })
        .boxed()
}

const KEYS: [&str; 3] = ["DHTStorage", "Gossip", "a"];

struct Out {
    /// For each operation that ended: if it was successful, and the identity it returned
    done: Vec<(bool, Option<String>)>,
    fault: bool,
    ended: bool,
}

fn child(s: &Script) -> Result<Out, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("flv_crash");
    let mut ch = Command::new(&exe)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("harness: cannot start {exe:?}: {e}"))?;
    ch.stdin
        .take()
        .unwrap()
        .write_all(serde_json::to_string(s).unwrap().as_bytes())
        .map_err(|e| format!("harness: {e}"))?;
    let o = ch.wait_with_output().map_err(|e| format!("harness: {e}"))?;
    let mut out = Out {
        done: vec![],
        fault: false,
        ended: false,
    };
    let mut id = None;
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        match l {
            "ok" => out.done.push((true, id.take())),
            "err" => out.done.push((false, id.take())),
            "fault" => out.fault = true,
            "end" => out.ended = true,
            l => id = l.strip_prefix("id ").map(String::from),
        }
    }
    ensure!(
        out.ended || o.status.code() == Some(77),
        "the storage panicked: {:?} after {:?}",
        o.status,
        out.done
    );
    Ok(out)
}

fn run_crash(x: &Crash, c: &mut Case) -> TestResult {
    let mut at = 0;
    let mut faults = 0;
    loop {
        let d = Dir::new();
        let root = d.0.join("store").to_string_lossy().to_string();
        let mut model: BTreeMap<String, String> = BTreeMap::new();
        let mut id: Option<String> = None;
        let mut ds: Store = Box::new(DataStorageFile::new(root.clone(), "fledger".into()));
        for op in &x.before {
            match op {
                COp::Set(k, v) => {
                    ds.set(k, v).map_err(|e| format!("cannot set {k}: {e}"))?;
                    model.insert(k.clone(), v.clone());
                }
                COp::Remove(k) => {
                    if model.remove(k).is_some() {
                        ds.remove(k).map_err(|e| format!("cannot remove {k}: {e}"))?;
                    }
                }
                COp::Config => {
                    let conf = flnode::node::Node::get_config(ds.clone_box()).map_err(|e| e.to_string())?;
                    let now = conf.info.get_id().to_string();
                    ensure!(id.is_none() || id.as_ref() == Some(&now), "the node got another identity");
                    id = Some(now);
                }
            }
        }
        let out = child(&Script {
            dir: root.clone(),
            base: "fledger",
            ops: &x.ops,
            at,
            kill: x.kill,
            part: x.part,
        })?;
        if !out.fault {
            ensure!(out.ended, "harness: the child stopped without a fault");
            ensure_eq!(faults, at, "harness: number of faults");
            break;
        }
        faults += 1;
        // What every key may have now: only the operations which failed or were interrupted
        // may have been done or not.
        let mut may: BTreeMap<String, BTreeSet<String>> = KEYS
            .iter()
            .map(|k| (k.to_string(), [model.get(*k).cloned().unwrap_or_default()].into()))
            .collect();
        for (i, op) in x.ops.iter().enumerate() {
            let done = out.done.get(i);
            if done.is_none() && i > out.done.len() {
                break;
            }
            let ok = done.map(|d| d.0) == Some(true);
            match op {
                COp::Set(k, v) => {
                    let e = may.get_mut(k).unwrap();
                    if ok {
                        e.clear();
                    }
                    e.insert(v.clone());
                }
                COp::Remove(k) => {
                    let e = may.get_mut(k).unwrap();
                    if ok {
                        e.clear();
                    }
                    e.insert(String::new());
                }
                COp::Config => {
                    if let Some((true, Some(now))) = done {
                        ensure!(
                            id.is_none() || id.as_ref() == Some(now),
                            "the node gets another identity although one was stored"
                        );
                        id = Some(now.clone());
                    }
                }
            }
        }
        let mut ds: Store = Box::new(DataStorageFile::new(root.clone(), "fledger".into()));
        let what = format!(
            "{} at call {at} (after {}/256 of a write)",
            if x.kill { "the process ends" } else { "the disk is full" },
            x.part
        );
        for (k, may) in &may {
            let got = ds.get(k).map_err(|e| format!("{what}: cannot get {k}: {e}"))?;
            if !may.contains(&got) {
                let short = |s: &String| {
                    format!("{:?} ({} bytes)", s.chars().take(20).collect::<String>(), s.len())
                };
                return Err(format!(
                    "{what}: {k} is {} and should be one of {:?}",
                    short(&got),
                    may.iter().map(short).collect::<Vec<_>>()
                ));
            }
        }
        // The node goes on with what it had
        let conf = flnode::node::Node::get_config(ds.clone_box()).map_err(|e| format!("{what}: {e}"))?;
        let now = conf.info.get_id().to_string();
        ensure!(
            id.is_none() || id.as_ref() == Some(&now),
            "{what}: the node gets another identity although one was stored"
        );
        for (k, v) in [("a", "later"), ("Gossip", ""), ("DHTStorage", "x")] {
            ds.set(k, v).map_err(|e| format!("{what}: cannot set afterwards: {e}"))?;
            ensure!(ds.get(k).ok().as_deref() == Some(v), "{what}: cannot set {k} afterwards");
        }
        at += 1;
        ensure!(at < 500, "harness: too many calls");
    }
    c.count("faults", faults as u64);
    c.label(if x.kill { "killed" } else { "disk full" });
    c.nontrivial(
        faults > 0
            && x.ops.iter().any(|o| match o {
                COp::Set(k, _) | COp::Remove(k) => x
                    .before
                    .iter()
                    .any(|b| matches!(b, COp::Set(kb, v) if kb == k && !v.is_empty())),
                COp::Config => x.before.iter().any(|b| matches!(b, COp::Config)),
            }),
    );
    Ok(())
}

pub fn run_atomic(ctx: &mut Ctx) {
    ctx.assume("data which was written before the process ends is still there afterwards (no power failure)");
    ctx.sub(
        Spec {
            name: "crash",
            rule: "storing and removing values and starting nodes, with the process ended or the disk full at each call which changes a file, and in the middle of a write; non-trivial: a value that was stored before is changed",
            quick: 5_000,
            thorough: 200_000,
            max_s: 70,
        },
        vec![],
        strat_crash,
        run_crash,
    );
}
