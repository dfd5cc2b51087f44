//! C12: the routing table only uses nodes which answer, and finds all of them.

use crate::fw::{Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::nodeids::{NodeID, U256};
use flmodules::dht_router::kademlia::{Config, Kademlia};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(Vec<u8>),
    Active(u8),
    Remove(u8),
    Disconnect(u8),
    /// Some ticks, with the nodes which are up answering the pings
    Tick(u8),
    /// Some ticks without answers
    Silent(u8),
    Switch(u8, bool),
    Route(u8, u8),
    RouteTo([u8; 3], u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Table {
    pub root: [u8; 3],
    pub ids: Vec<[u8; 3]>,
    pub k: u8,
    pub interval: u8,
    pub timeout: u8,
    pub ops: Vec<Op>,
}

/// An ID which has its bits at the start, a few in the middle, and at the end.
pub fn mkid(b: &[u8; 3]) -> NodeID {
    let mut id = [0u8; 32];
    id[0] = b[0];
    id[1] = b[1] & 0xc1;
    id[15] = b[1] & 0x3e;
    id[31] = b[2];
    id.into()
}

pub fn id3() -> BoxedStrategy<[u8; 3]> {
    prop_oneof![
        4 => any::<u8>().prop_map(|a| [a, 0, 0]),
        3 => any::<[u8; 3]>(),
        2 => (0u32..8, any::<u8>()).prop_map(|(s, b)| [(b | 1) >> s, 0, 0]),
        2 => (0u8..4, any::<u8>()).prop_map(|(a, b)| [a, b, 0]),
        2 => any::<u8>().prop_map(|c| [0, 0, c]),
        1 => (0u8..2).prop_map(|c| [0, 0, c]),
    ]
    .boxed()
}

/// Number of bits in common at the start. The code doesn't tell apart equal IDs from those
/// which differ in the last bit.
pub fn common(a: &U256, b: &U256) -> usize {
    let mut n = 0;
    for (x, y) in a.as_ref().iter().zip(b.as_ref()) {
        let z = (x ^ y).leading_zeros() as usize;
        n += z;
        if z < 8 {
            return n;
        }
    }
    n
}

fn strat() -> BoxedStrategy<Table> {
    (id3(), proptest::collection::vec(id3(), 1..40), 1u8..4, 1u8..5, 1u8..8)
        .prop_flat_map(|(root, ids, k, interval, more)| {
            let n = ids.len() as u8;
            let i = 0..n;
            let op = prop_oneof![
                4 => proptest::collection::vec(0..n, 1..12).prop_map(Op::Add),
                6 => i.clone().prop_map(Op::Active),
                1 => i.clone().prop_map(Op::Remove),
                2 => i.clone().prop_map(Op::Disconnect),
                4 => (1u8..6).prop_map(Op::Tick),
                1 => (1u8..6).prop_map(Op::Silent),
                2 => (i.clone(), any::<bool>()).prop_map(|(i, b)| Op::Switch(i, b)),
                2 => (i.clone(), i.clone()).prop_map(|(a, b)| Op::Route(a, b)),
                2 => (id3(), i).prop_map(|(a, b)| Op::RouteTo(a, b)),
            ];
            (
                Just(root),
                Just(ids),
                Just(k),
                Just(interval),
                Just(interval + more),
                proptest::collection::vec(op, 1..50),
            )
        })
        .prop_map(|(root, ids, k, interval, timeout, ops)| Table {
            root,
            ids,
            k,
            interval,
            timeout,
            ops,
        })
        .boxed()
}

struct Model {
    kad: Kademlia,
    cfg: Config,
    root: NodeID,
    ids: Vec<NodeID>,
    up: Vec<bool>,
    /// Nodes which might be in the table: ticks since they were announced or heard
    /// for the last time, and if they were heard.
    told: BTreeMap<NodeID, (u32, bool)>,
    /// For active nodes: ticks since the last ping or sign of life
    pinged: BTreeMap<NodeID, u32>,
}

impl Model {
    fn known(&self) -> Vec<NodeID> {
        let mut v = self.kad.active_nodes();
        v.extend(self.kad.cache_nodes());
        v
    }

    fn check(&mut self, what: &str) -> TestResult {
        let known = self.known();
        let set: BTreeSet<NodeID> = known.iter().cloned().collect();
        ensure!(set.len() == known.len(), "{what}: a node is in the table twice:\n{}", self.kad);
        ensure!(!set.contains(&self.root), "{what}: the node has itself in its table");
        for id in &set {
            ensure!(
                self.told.contains_key(id),
                "{what}: {id} is in the table but was removed or never announced:\n{}",
                self.kad
            );
        }
        // Nodes which got lost may be announced again.
        self.told.retain(|id, _| set.contains(id));
        let active = self.kad.active_nodes();
        self.pinged.retain(|id, _| active.contains(id));
        for id in &active {
            let (silent, heard) = self.told[id];
            ensure!(heard, "{what}: {id} is used although it was never heard:\n{}", self.kad);
            ensure!(
                silent < self.cfg.ping_timeout,
                "{what}: {id} is used although it was silent for {silent} ticks:\n{}",
                self.kad
            );
            self.pinged.entry(*id).or_insert(silent);
        }
        let buckets = self.kad.bucket_nodes();
        let all: Vec<NodeID> = buckets.iter().flatten().cloned().collect();
        ensure!(
            all.iter().collect::<BTreeSet<_>>() == active.iter().collect::<BTreeSet<_>>()
                && all.len() == active.len(),
            "{what}: the buckets don't hold the active nodes"
        );
        let nb = buckets.len() - 1;
        for (i, b) in buckets.iter().enumerate() {
            for id in b {
                let d = common(&self.root, id);
                ensure!(
                    if i < nb { d == i } else { d >= nb },
                    "{what}: {id} is in the wrong bucket {i}/{nb}:\n{}",
                    self.kad
                );
            }
            ensure!(
                i == nb || b.len() <= self.cfg.k,
                "{what}: bucket {i} has {} instead of {} nodes in use",
                b.len(),
                self.cfg.k
            );
        }
        Ok(())
    }

    fn active_at(&self, depth: usize) -> BTreeSet<NodeID> {
        self.kad
            .active_nodes()
            .into_iter()
            .filter(|id| common(&self.root, id) == depth)
            .collect()
    }

    fn route(&self, dst: &NodeID, last: &NodeID) -> TestResult {
        if dst == &self.root {
            return Ok(());
        }
        let depth = common(&self.root, dst);
        let want = self.active_at(depth);
        let set = |v: Vec<NodeID>| -> BTreeSet<NodeID> { v.into_iter().collect() };
        ensure_eq!(set(self.kad.route_direct(dst)), want, "the nodes which are closer to {dst} for a direct message");
        ensure_eq!(set(self.kad.route_closest(dst, None)), want, "the nodes which are closer to {dst}");
        ensure_eq!(set(self.kad.get_nodes_depth(depth)), want, "the nodes at distance {depth}");
        if last == &self.root {
            return Ok(());
        }
        let got = self.kad.route_closest(dst, Some(last));
        if !want.is_empty() {
            ensure_eq!(set(got), want, "the nodes which are closer to {dst} when routing on");
        } else {
            let active = self.kad.active_nodes();
            let dl = common(&self.root, last);
            for id in &got {
                let d = common(&self.root, id);
                ensure!(active.contains(id), "a message is routed to {id}, which isn't active");
                ensure!(
                    d > depth && d > dl,
                    "a message to {dst} which came from {last} could loop when it is routed from {} to {id}",
                    self.root
                );
            }
            // These are the next ones, and a table which has some before its furthest distance
            // passes them on.
            let distances = |ids: &[NodeID]| -> BTreeSet<usize> {
                ids.iter().map(|id| common(&self.root, id)).collect()
            };
            let next = distances(&active).into_iter().find(|d| *d > depth.max(dl));
            let last_root = distances(self.kad.bucket_nodes().last().unwrap()).last().cloned();
            if next.is_some() && next < last_root || !got.is_empty() {
                ensure_eq!(
                    set(got),
                    self.active_at(next.unwrap_or(0)),
                    "the next nodes for {dst} when it came from {last}:\n{}",
                    self.kad
                );
            }
        }
        Ok(())
    }

    fn heard(&mut self, id: NodeID) -> TestResult {
        let known = self.known().contains(&id);
        let before = self.kad.active_nodes();
        let new = self.kad.node_active(&id);
        let after = self.kad.active_nodes();
        ensure_eq!(
            new,
            after.contains(&id) && !before.contains(&id),
            "the answer if {id} became active"
        );
        if known {
            self.told.insert(id, (0, true));
            self.pinged.insert(id, 0);
            let d = common(&self.root, &id);
            ensure!(
                after.contains(&id) || self.active_at(d).len() >= self.cfg.k,
                "{id} answers, isn't used, and there are only {} other nodes at its distance:\n{}",
                self.active_at(d).len(),
                self.kad
            );
        }
        ensure!(
            before.iter().all(|i| after.contains(i)),
            "hearing from a node removes another"
        );
        self.check("hearing from a node")
    }

    fn tick(&mut self, answer: bool) -> TestResult {
        let known: BTreeSet<NodeID> = self.known().into_iter().collect();
        let active = self.kad.active_nodes();
        let t = self.kad.tick();
        for v in self.told.values_mut() {
            v.0 += 1;
        }
        for v in self.pinged.values_mut() {
            *v += 1;
        }
        let now = self.known();
        for id in &t.ping {
            ensure!(known.contains(id), "{id} is pinged but not in the table");
            if let Some(p) = self.pinged.get_mut(id) {
                *p = 0;
            }
        }
        for id in &t.deleted {
            ensure!(known.contains(id) && !now.contains(id), "{id} is still there after being deleted");
            let (silent, heard) = self.told[id];
            let min = if heard {
                self.cfg.ping_timeout
            } else {
                self.cfg.ping_timeout - self.cfg.ping_interval + 1
            };
            ensure!(
                silent >= min,
                "{id} is deleted after {silent} instead of {min} ticks without an answer"
            );
        }
        for id in &known {
            ensure!(
                now.contains(id) || t.deleted.contains(id),
                "{id} got lost in a tick without being deleted"
            );
        }
        for id in &active {
            let (silent, _) = self.told[id];
            ensure!(
                silent < self.cfg.ping_timeout || t.deleted.contains(id),
                "{id} is still used after {silent} ticks without a sign of life"
            );
            ensure!(
                t.deleted.contains(id) || self.pinged[id] < self.cfg.ping_interval,
                "{id} isn't pinged, although it was silent for {silent} ticks"
            );
        }
        self.check("a tick")?;
        if answer {
            for id in t.ping {
                if self.is_up(&id) {
                    self.heard(id)?;
                }
            }
        }
        Ok(())
    }

    fn is_up(&self, id: &NodeID) -> bool {
        self.ids
            .iter()
            .zip(&self.up)
            .any(|(i, up)| i == id && *up)
    }

    fn add(&mut self, id: NodeID) -> TestResult {
        // A node can be dropped for lack of space and be announced again.
        if id != self.root && !self.known().contains(&id) {
            self.told.insert(id, (0, false));
        }
        if id.as_ref()[0] % 2 == 0 {
            self.kad.add_node(id);
        } else {
            self.kad.add_nodes(vec![id]);
        }
        let d = common(&self.root, &id);
        let cached = self
            .kad
            .cache_nodes()
            .iter()
            .filter(|i| common(&self.root, i) == d)
            .count();
        ensure!(
            id == self.root || self.known().contains(&id) || cached >= self.cfg.k,
            "{id} is forgotten, although there are only {cached} nodes waiting at its distance"
        );
        self.check("adding a node")
    }
}

fn run(t: &Table, c: &mut Case) -> TestResult {
    let root = mkid(&t.root);
    let cfg = Config {
        root,
        k: t.k as usize,
        ping_interval: t.interval as u32,
        ping_timeout: t.timeout as u32,
    };
    let mut ids: Vec<NodeID> = t.ids.iter().map(mkid).collect();
    let mut seen = BTreeSet::new();
    ids.retain(|i| seen.insert(*i));
    let n = ids.len();
    let mut m = Model {
        kad: Kademlia::new(cfg),
        cfg,
        root,
        up: vec![true; n],
        ids,
        told: BTreeMap::new(),
        pinged: BTreeMap::new(),
    };
    let id = |i: &u8, m: &Model| m.ids[*i as usize % n];
    for op in &t.ops {
        match op {
            Op::Add(v) => {
                for i in v {
                    let id = id(i, &m);
                    m.add(id)?;
                }
            }
            Op::Active(i) => {
                let id = id(i, &m);
                m.heard(id)?;
            }
            Op::Remove(i) | Op::Disconnect(i) => {
                let id = id(i, &m);
                let before = m.known();
                if matches!(op, Op::Remove(_)) {
                    m.kad.remove_node(&id);
                } else {
                    m.kad.node_disconnected(&id);
                    c.label_if(before.contains(&id), "disconnected");
                }
                ensure!(
                    !m.known().contains(&id),
                    "{id} is still in the table after {op:?}:\n{}",
                    m.kad
                );
                m.told.remove(&id);
                m.pinged.remove(&id);
                for i in m.kad.active_nodes() {
                    ensure!(before.contains(&i), "a new node after a removal");
                }
                m.check("removing a node")?;
            }
            Op::Tick(n) => {
                for _ in 0..*n {
                    m.tick(true)?;
                }
            }
            Op::Silent(n) => {
                for _ in 0..*n {
                    m.tick(false)?;
                }
            }
            Op::Switch(i, up) => {
                let i = *i as usize % n;
                m.up[i] = *up;
            }
            Op::Route(a, b) => m.route(&id(a, &m), &id(b, &m))?,
            Op::RouteTo(a, b) => m.route(&mkid(a), &id(b, &m))?,
        }
    }
    c.nontrivial(m.kad.bucket_nodes().len() > 1 && m.kad.active_nodes().len() > 1);
    c.count("ops", t.ops.len() as u64);
    // With everything staying as it is now, only the nodes which answer remain in use, and for
    // each distance there are enough of them.
    let up: Vec<NodeID> = m.known().into_iter().filter(|i| m.is_up(i)).collect();
    // Let those answer which were silent up to now, unless they time out first.
    let up: Vec<NodeID> = {
        for id in up.iter() {
            m.heard(*id)?;
        }
        up
    };
    for _ in 0..(t.timeout as usize + 1) * (n / t.k as usize + 3) {
        m.tick(true)?;
        let known = m.known();
        for id in &up {
            ensure!(known.contains(id), "{id} answers every ping and still got dropped");
        }
    }
    let active = m.kad.active_nodes();
    for id in &active {
        ensure!(m.is_up(id), "{id} is used although it is down since a long time");
    }
    let mut depths: BTreeMap<usize, usize> = BTreeMap::new();
    for id in &up {
        *depths.entry(common(&root, id)).or_default() += 1;
    }
    for (d, n) in &depths {
        let a = m.active_at(*d).len();
        ensure!(
            a >= (*n).min(m.cfg.k),
            "only {a} of the {n} nodes which answer are used at distance {d}:\n{}",
            m.kad
        );
    }
    c.label_if(up.len() > active.len(), "spare nodes");
    c.label_if(!up.is_empty() && active.is_empty(), "none active");
    for i in 0..n as u8 {
        m.route(&id(&i, &m), &id(&(i / 2), &m))?;
    }
    Ok(())
}

pub fn run_table(ctx: &mut Ctx) {
    ctx.assume("the ping interval is shorter than the timeout");
    ctx.sub(
        Spec {
            name: "table",
            rule: "histories of announcements, signs of life, removals, ticks and routes with up to 40 IDs around the root; non-trivial: more than one bucket and more than one active node at the end",
            quick: 30_000,
            thorough: 2_000_000,
            max_s: 60,
        },
        vec![],
        strat,
        run,
    );
}
