//! C08, C09 and C10: several real DHT storages, connected by a simulated network which
//! delays, reorders, repeats and loses messages.

use super::store::{force, seed_bytes};
use crate::ensure;
use crate::fw::{unlink, block_on, idle, Case, Ctx, Spec, TestResult};
use flarch::data_storage::{DataStorage, StorageError};
use flarch::nodeids::{NodeID, U256};
use flcrypto::access::Condition;
use flmodules::dht_router::broker::{BrokerDHTRouter, DHTRouterIn, DHTRouterOut};
use flmodules::dht_router::kademlia::KNode;
use flmodules::dht_storage::broker::{DHTStorage, DHTStorageIn, DHTStorageOut};
use flmodules::dht_storage::core::{Cuckoo, DHTConfig, FloConfig, RealmConfig};
use flmodules::dht_storage::intern::{MessageClosest, MessageDest, MessageNeighbour};
use flmodules::flo::flo::{Flo, FloID};
use flmodules::flo::realm::{GlobalID, Realm, RealmID};
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::{BrokerTimer, TimerMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::UnboundedReceiver;

use super::store::{make_realm, Load};

/// A storage of which a copy can be taken.
#[derive(Clone, Default)]
pub struct MemDs(pub Arc<Mutex<HashMap<String, String>>>);

impl MemDs {
    pub fn fork(&self) -> MemDs {
        MemDs(Arc::new(Mutex::new(self.0.lock().unwrap().clone())))
    }
}

impl DataStorage for MemDs {
    fn get(&self, key: &str) -> Result<String, StorageError> {
        Ok(self.0.lock().unwrap().get(key).cloned().unwrap_or_default())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
        self.0.lock().unwrap().insert(key.into(), value.into());
        Ok(())
    }
    fn remove(&mut self, key: &str) -> Result<(), StorageError> {
        self.0.lock().unwrap().remove(key);
        Ok(())
    }
    fn clone_box(&self) -> Box<dyn DataStorage + Send> {
        Box::new(self.clone())
    }
}

pub const REALMS: u8 = 2;
pub const FLOS: u8 = 8;

pub fn node_id(i: usize) -> NodeID {
    crate::gen::u256(5000 + i as u64)
}

pub fn realm_id(r: u8) -> RealmID {
    (*Flo::calc_flo_id(&force(900 + r as u64).unwrap())).into()
}

pub fn flo_id(f: u8) -> FloID {
    Flo::calc_flo_id(&force(700 + f as u64).unwrap())
}

/// Realm, parent and version make the Flo; so there are no conflicting versions, except if asked for.
pub fn make(f: u8, realm: u8, version: u32, parent: Option<u8>, variant: u8, size: usize) -> Flo {
    let mut flo = Flo::new_signer(
        realm_id(realm),
        Condition::Pass,
        &Load {
            tag: variant as u32,
            bytes: "0".into(),
        },
        FloConfig {
            cuckoo: parent
                .map(|p| Cuckoo::Parent(flo_id(p)))
                .unwrap_or(Cuckoo::None),
            force_id: Some(U256::from(seed_bytes(700 + f as u64))),
        },
        &[],
    )
    .unwrap();
    for v in 1..=version {
        let load = Load {
            tag: variant as u32,
            bytes: format!("{v}{}", "y".repeat(size)),
        };
        flo = flo
            .update_data_signers(Condition::Pass, load, &[])
            .unwrap();
    }
    flo
}

/// One of many small Flos.
fn make_bulk(k: u8, realm: u8, version: u32) -> Flo {
    let mut flo = Flo::new_signer(
        realm_id(realm),
        Condition::Pass,
        &Load { tag: 0, bytes: "".into() },
        FloConfig {
            cuckoo: Cuckoo::None,
            force_id: Some(U256::from(seed_bytes(20_000 + k as u64))),
        },
        &[],
    )
    .unwrap();
    for v in 1..=version {
        let load = Load { tag: v, bytes: "".into() };
        flo = flo.update_data_signers(Condition::Pass, load, &[]).unwrap();
    }
    flo
}

pub fn make_realm_flo(r: u8, version: u32, max_space: u64) -> Flo {
    make_realm(
        900 + r as u64,
        version,
        &format!("realm {r}"),
        RealmConfig {
            max_space,
            max_flo_size: 100_000,
        },
    )
    .flo()
    .clone()
}

/// A Flo which looks like a realm, but which has another ID.
fn forged_realm(r: u8, f: u8) -> Flo {
    let force = if f < FLOS { 700 + f as u64 } else { 900 + (f - FLOS) as u64 };
    Flo::new_signer(
        realm_id(r),
        Condition::Pass,
        &Realm::new("forged".into(), RealmConfig { max_space: 1_000_000, max_flo_size: 100_000 }),
        FloConfig {
            cuckoo: Cuckoo::None,
            force_id: Some(U256::from(seed_bytes(force))),
        },
        &[],
    )
    .unwrap()
}

/// What a node has: for every realm all Flos with version, content and cuckoos.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Held {
    pub version: u32,
    pub data: Vec<u8>,
    pub cuckoos: BTreeSet<[u8; 32]>,
}
pub type State = (BTreeSet<[u8; 32]>, BTreeMap<([u8; 32], [u8; 32]), Held>);

pub fn raw<T: AsRef<[u8]>>(id: &T) -> [u8; 32] {
    id.as_ref().try_into().unwrap()
}

pub struct Node {
    pub id: NodeID,
    pub ds: MemDs,
    pub cfg: DHTConfig,
    pub storage: DHTStorage,
    pub router: BrokerDHTRouter,
    pub timer: BrokerTimer,
    tap: UnboundedReceiver<DHTRouterIn>,
    out: UnboundedReceiver<DHTStorageOut>,
}

impl Node {
    pub async fn start(id: NodeID, ds: MemDs, cfg: DHTConfig) -> Self {
        let mut router = BrokerDHTRouter::new();
        let timer = BrokerTimer::new();
        let tap = router.get_tap_in().await.unwrap().0;
        let mut storage =
            DHTStorage::start(Box::new(ds.clone()), cfg.clone(), timer.clone(), router.clone())
                .await
                .unwrap();
        let out = storage.broker.get_tap_out().await.unwrap().0;
        Self {
            id,
            ds,
            cfg,
            storage,
            router,
            timer,
            tap,
            out,
        }
    }

    /// Unlinks the brokers, as they keep each other in memory otherwise.
    pub async fn stop(&mut self) {
            unlink(&mut self.router).await;
            unlink(&mut self.timer).await;
            unlink(&mut self.storage.broker).await;
    }

    pub async fn ask(&mut self, msg: DHTStorageIn) -> Vec<DHTStorageOut> {
        while self.out.try_recv().is_ok() {}
        self.storage.broker.emit_msg_in(msg).unwrap();
        idle().await;
        let mut v = vec![];
        while let Ok(m) = self.out.try_recv() {
            v.push(m);
        }
        v
    }

    pub async fn state(&mut self) -> Result<State, String> {
        let mut realms = None;
        let mut flos = None;
        for m in self.ask(DHTStorageIn::GetRealms).await {
            if let DHTStorageOut::RealmIDs(r) = m {
                ensure!(realms.is_none(), "GetRealms answered twice");
                let n = r.len();
                let set: BTreeSet<_> = r.iter().map(raw).collect();
                ensure!(set.len() == n, "a realm is listed twice");
                realms = Some(set);
            }
        }
        for m in self.ask(DHTStorageIn::GetFlos).await {
            if let DHTStorageOut::FloValues(f) = m {
                ensure!(flos.is_none(), "GetFlos answered twice");
                let n = f.len();
                let map: BTreeMap<_, _> = f
                    .iter()
                    .map(|(f, c)| {
                        (
                            (raw(&f.realm_id()), raw(&f.flo_id())),
                            Held {
                                version: f.version(),
                                data: f.data().to_vec(),
                                cuckoos: c.iter().map(raw).collect(),
                            },
                        )
                    })
                    .collect();
                ensure!(map.len() == n, "a Flo is listed twice");
                flos = Some(map);
            }
        }
        match (realms, flos) {
            (Some(r), Some(f)) => Ok((r, f)),
            _ => Err("the storage doesn't answer".into()),
        }
    }

    /// What a node started from this node's persisted data has.
    pub async fn shadow_state(&self) -> Result<State, String> {
        let mut n = Node::start(self.id, self.ds.fork(), self.cfg.clone()).await;
        let st = n.state().await;
        n.stop().await;
        st
    }
}

#[derive(Clone)]
pub struct Pkt {
    pub from: usize,
    pub to: usize,
    pub out: DHTRouterOut,
}

pub struct Net {
    pub nodes: Vec<Node>,
    pub edges: BTreeSet<(usize, usize)>,
    pub pool: Vec<Pkt>,
    pub route: bool,
    pub sent: Vec<(usize, NetworkWrapper)>,
}

impl Net {
    pub fn linked(&self, a: usize, b: usize) -> bool {
        self.edges.contains(&(a.min(b), a.max(b)))
    }

    fn index(&self, id: &NodeID) -> Option<usize> {
        self.nodes.iter().position(|n| n.id == *id)
    }

    /// Moves everything the nodes want to send to the pool.
    pub async fn collect(&mut self) {
        idle().await;
        for i in 0..self.nodes.len() {
            while let Ok(msg) = self.nodes[i].tap.try_recv() {
                let me = self.nodes[i].id;
                match msg {
                    DHTRouterIn::MessageBroadcast(w) => {
                        self.sent.push((i, w.clone()));
                        for to in 0..self.nodes.len() {
                            if self.linked(i, to) {
                                self.pool.push(Pkt {
                                    from: i,
                                    to,
                                    out: DHTRouterOut::MessageNeighbour(me, w.clone()),
                                });
                            }
                        }
                    }
                    DHTRouterIn::MessageNeighbour(dst, w) => {
                        self.sent.push((i, w.clone()));
                        if let Some(to) = self.index(&dst) {
                            if self.linked(i, to) {
                                self.pool.push(Pkt {
                                    from: i,
                                    to,
                                    out: DHTRouterOut::MessageNeighbour(me, w),
                                });
                            }
                        }
                    }
                    DHTRouterIn::MessageDirect(dst, w) => {
                        if let Some(to) = self.index(&dst) {
                            self.pool.push(Pkt {
                                from: i,
                                to,
                                out: DHTRouterOut::MessageDest(me, me, w),
                            });
                        }
                    }
                    DHTRouterIn::MessageClosest(key, w) => {
                        if !self.route {
                            continue;
                        }
                        // Greedy way over the neighbours
                        let mut path = vec![i];
                        loop {
                            let cur = *path.last().unwrap();
                            let d = KNode::get_depth(&key, &self.nodes[cur].id);
                            let next = (0..self.nodes.len())
                                .filter(|n| self.linked(cur, *n))
                                .filter(|n| KNode::get_depth(&key, &self.nodes[*n].id) > d)
                                .max_by_key(|n| KNode::get_depth(&key, &self.nodes[*n].id));
                            match next {
                                Some(n) => path.push(n),
                                None => break,
                            }
                        }
                        for p in 1..path.len() {
                            let last = self.nodes[path[p - 1]].id;
                            let out = if p + 1 < path.len() {
                                DHTRouterOut::MessageRouting(
                                    me,
                                    last,
                                    self.nodes[path[p + 1]].id,
                                    key,
                                    w.clone(),
                                )
                            } else {
                                DHTRouterOut::MessageClosest(me, last, key, w.clone())
                            };
                            self.pool.push(Pkt {
                                from: i,
                                to: path[p],
                                out,
                            });
                        }
                    }
                }
            }
        }
    }

    pub fn inject(&mut self, p: Pkt) {
        self.nodes[p.to].router.emit_msg_out(p.out).unwrap();
    }

    /// Delivers everything until nothing is left.
    pub async fn flush(&mut self) -> Result<usize, String> {
        let mut n = 0;
        loop {
            self.collect().await;
            if self.pool.is_empty() {
                return Ok(n);
            }
            for p in std::mem::take(&mut self.pool) {
                self.inject(p);
                n += 1;
            }
            ensure!(
                n < 30_000,
                "the nodes never stop exchanging messages ({n} delivered)"
            );
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// node, flo, version, variant
    Store(u8, u8, u8, bool),
    /// node, realm, version
    Realm(u8, u8, u8),
    Deliver(u16),
    Drop(u16),
    Dup(u16),
    Flush,
    Sync(u8),
    Propagate(u8),
    Tick(u8),
    Read(u8, u8),
    Restart(u8),
    SystemRealm(u8, u8),
    /// node, realm, ID of the Flo (from FLOS on the one of a realm), way: a Flo of type realm with any ID
    Forged(u8, u8, u8, u8),
    /// node, realm, number, version: many Flos at once
    Bulk(u8, u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    nodes: u8,
    edges: Vec<(u8, u8)>,
    /// Which realms the nodes accept: 0 means all, 1 and 2 only the first or the second
    accept: Vec<u8>,
    /// Realm and parent of the Flos
    flos: Vec<(u8, Option<u8>)>,
    space: u32,
    route: bool,
    ops: Vec<Op>,
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Sync,
    Restart,
    Admission,
}

fn strat(which: Which) -> BoxedStrategy<In> {
    let op = prop_oneof![
        8 => (any::<u8>(), 0..FLOS, 0u8..4, proptest::bool::weighted(0.1))
            .prop_map(|(n, f, v, c)| Op::Store(n, f, v, c)),
        3 => (any::<u8>(), 0..REALMS, 0u8..3).prop_map(|(n, r, v)| Op::Realm(n, r, v)),
        8 => any::<u16>().prop_map(Op::Deliver),
        2 => any::<u16>().prop_map(Op::Drop),
        2 => any::<u16>().prop_map(Op::Dup),
        2 => Just(Op::Flush),
        3 => any::<u8>().prop_map(Op::Sync),
        2 => any::<u8>().prop_map(Op::Propagate),
        1 => any::<u8>().prop_map(Op::Tick),
        2 => (any::<u8>(), 0..FLOS).prop_map(|(n, f)| Op::Read(n, f)),
        (if which == Which::Sync { 1 } else { 3 }) => any::<u8>().prop_map(Op::Restart),
    ]
    .boxed();
    let op = if which == Which::Admission {
        prop_oneof![
            24 => op,
            2 => (any::<u8>(), 0..REALMS).prop_map(|(n, r)| Op::SystemRealm(n, r)),
            1 => (any::<u8>(), 0..REALMS, 0..FLOS + REALMS, 0u8..4).prop_map(|(n, r, f, w)| Op::Forged(n, r, f, w)),
        ]
        .boxed()
    } else {
        op
    };
    let accept = match which {
        Which::Sync => prop_oneof![6 => Just(0u8), 1 => 1u8..3].boxed(),
        Which::Restart => prop_oneof![6 => Just(0u8), 1 => 1u8..3].boxed(),
        Which::Admission => (0u8..3).boxed(),
    };
    let space = match which {
        Which::Restart => prop_oneof![2 => Just(1_000_000u32), 1 => 1500u32..6000].boxed(),
        _ => Just(1_000_000u32).boxed(),
    };
    (
        2u8..6,
        proptest::collection::vec((any::<u8>(), any::<u8>()), 0..6),
        proptest::collection::vec(accept, 6),
        proptest::collection::vec(
            (
                prop_oneof![3 => Just(0u8), 1 => Just(1u8)],
                proptest::option::weighted(0.5, 0..FLOS),
            ),
            FLOS as usize,
        ),
        space,
        any::<bool>(),
        (
            any::<u8>(),
            proptest::collection::vec(op, 0..40),
            proptest::option::weighted(0.02, (any::<u8>(), 0..REALMS, 1..255u8, 0..2u8, any::<u16>())),
        ),
    )
        .prop_map(move |(nodes, edges, accept, flos, space, route, (first, ops, bulk))| {
            // Mostly start with a realm
            let mut all = vec![];
            if first % 4 != 0 {
                all.push(Op::Realm(first, 0, 0));
            }
            if first % 8 > 3 {
                all.push(Op::Realm(first / 8, 1, 0));
            }
            all.extend(ops);
            let mut nodes = nodes;
            if let Some((n, r, nbr, v, at)) = bulk.filter(|_| which == Which::Sync) {
                nodes = nodes.min(3);
                let at = at as usize % (all.len() + 1);
                all.insert(at, Op::Bulk(n, r, nbr, v));
                all.insert(at, Op::Realm(n, r, 0));
            }
            In {
                nodes,
                edges,
                accept,
                flos,
                space,
                route,
                ops: all,
            }
        })
        .boxed()
}

fn allowed(a: u8) -> Vec<RealmID> {
    match a {
        0 => vec![],
        a => vec![realm_id(a - 1)],
    }
}

async fn run_net(which: Which, x: &In, c: &mut Case) -> TestResult {
    let n = x.nodes.max(2) as usize;
    let mut edges = BTreeSet::new();
    for (i, (a, b)) in x.edges.iter().enumerate() {
        let (a, b) = (*a as usize % n, *b as usize % n);
        if a != b {
            edges.insert((a.min(b), a.max(b)));
        } else if i + 1 < n {
            // Mostly connected: a chain
            edges.insert((i, i + 1));
        }
    }
    for i in x.edges.len()..n - 1 {
        edges.insert((i, i + 1));
    }
    let mut net = Net {
        nodes: vec![],
        edges,
        pool: vec![],
        route: x.route,
        sent: vec![],
    };
    let mut accept: Vec<Vec<RealmID>> = vec![];
    for i in 0..n {
        let mut cfg = DHTConfig::default(node_id(i));
        cfg.realms = allowed(x.accept[i % x.accept.len()] % 3);
        accept.push(cfg.realms.clone());
        net.nodes
            .push(Node::start(node_id(i), MemDs::default(), cfg).await);
    }
    let mut best: Vec<BTreeMap<([u8; 32], [u8; 32]), u32>> = vec![BTreeMap::new(); n];
    let mut conflicts: BTreeSet<u8> = BTreeSet::new();
    let mut restarts = 0;
    let mut known = BTreeSet::new();
    let mut exchanged = 0;
    for (i, op) in x.ops.iter().enumerate() {
        let mut touched: Option<usize> = None;
        let what = format!("op {i} ({op:?})");
        match op {
            Op::Store(node, f, v, variant) => {
                let node = *node as usize % n;
                let (realm, parent) = x.flos[*f as usize % x.flos.len()].clone();
                let f = *f % FLOS;
                if *variant {
                    conflicts.insert(f);
                }
                let had_realm = net.nodes[node].state().await?.0.contains(&raw(&realm_id(realm)));
                let flo = make(f, realm, *v as u32, parent, *variant as u8, *v as usize * 20);
                net.nodes[node].storage.store_flo(flo).unwrap();
                idle().await;
                if had_realm && x.space >= 1_000_000 {
                    let e = best[node]
                        .entry((raw(&realm_id(realm)), raw(&flo_id(f))))
                        .or_default();
                    *e = (*e).max(*v as u32);
                }
                touched = Some(node);
            }
            Op::Bulk(node, r, nbr, v) => {
                let node = *node as usize % n;
                let had_realm = net.nodes[node].state().await?.0.contains(&raw(&realm_id(*r)));
                for k in 0..*nbr {
                    let flo = make_bulk(k, *r, *v as u32);
                    let id = raw(&flo.flo_id());
                    net.nodes[node].storage.store_flo(flo).unwrap();
                    if had_realm && x.space >= 1_000_000 {
                        let e = best[node].entry((raw(&realm_id(*r)), id)).or_default();
                        *e = (*e).max(*v as u32);
                    }
                }
                idle().await;
                c.label("many Flos");
                touched = Some(node);
            }
            Op::Realm(node, r, v) => {
                let node = *node as usize % n;
                let flo = make_realm_flo(*r, *v as u32, x.space as u64);
                net.nodes[node].storage.store_flo(flo).unwrap();
                idle().await;
                touched = Some(node);
            }
            Op::Deliver(k) => {
                net.collect().await;
                if !net.pool.is_empty() {
                    let k = *k as usize * net.pool.len() >> 16;
                    let p = net.pool.remove(k);
                    touched = Some(p.to);
                    exchanged += 1;
                    net.inject(p);
                }
            }
            Op::Drop(k) => {
                net.collect().await;
                if !net.pool.is_empty() {
                    let k = *k as usize * net.pool.len() >> 16;
                    net.pool.remove(k);
                }
            }
            Op::Dup(k) => {
                net.collect().await;
                if !net.pool.is_empty() {
                    let k = *k as usize * net.pool.len() >> 16;
                    let p = net.pool[k].clone();
                    touched = Some(p.to);
                    net.inject(p);
                }
            }
            Op::Flush => {
                exchanged += net.flush().await?;
            }
            Op::Sync(node) => net.nodes[*node as usize % n].storage.sync().unwrap(),
            Op::Propagate(node) => net.nodes[*node as usize % n].storage.propagate().unwrap(),
            Op::Tick(node) => net.nodes[*node as usize % n]
                .timer
                .emit_msg_out(TimerMessage::Minute)
                .unwrap(),
            Op::Read(node, f) => {
                let node = *node as usize % n;
                let (realm, _) = x.flos[*f as usize % x.flos.len()];
                let gid = GlobalID::new(realm_id(realm), flo_id(*f % FLOS));
                let st = net.nodes[node].state().await?;
                let local = st.1.get(&(raw(gid.realm_id()), raw(gid.flo_id())));
                let got = net.nodes[node].ask(DHTStorageIn::ReadFlo(gid.clone())).await;
                if let Some(l) = local {
                    ensure!(
                        matches!(&got[..], [DHTStorageOut::FloValue((flo, cuckoos))]
                            if flo.version() == l.version && flo.data().to_vec() == l.data
                            && flo.global_id() == gid
                            && cuckoos.iter().map(raw).collect::<BTreeSet<_>>() == l.cuckoos),
                        "{what}: reading a stored Flo gives {} answers which don't match",
                        got.len()
                    );
                } else {
                    ensure!(
                        got.is_empty(),
                        "{what}: reading an unknown Flo is answered locally"
                    );
                }
                let got = net.nodes[node]
                    .ask(DHTStorageIn::ReadCuckooIDs(gid.clone()))
                    .await;
                let want = local.map(|l| l.cuckoos.clone());
                let have = got.iter().find_map(|m| match m {
                    DHTStorageOut::CuckooIDs(id, ids) if *id == gid => {
                        Some(ids.iter().map(raw).collect::<BTreeSet<_>>())
                    }
                    _ => None,
                });
                ensure!(
                    want == have,
                    "{what}: the listed cuckoos {have:?} don't match the stored ones"
                );
            }
            Op::Restart(node) => {
                let node = *node as usize % n;
                idle().await;
                let before = net.nodes[node].state().await?;
                restarts += 1;
                let fresh = Node::start(
                    node_id(node),
                    net.nodes[node].ds.clone(),
                    net.nodes[node].cfg.clone(),
                )
                .await;
                net.collect().await;
                net.sent.clear();
                net.nodes[node].stop().await;
                net.nodes[node] = fresh;
                accept[node] = net.nodes[node].cfg.realms.clone();
                let after = net.nodes[node].state().await?;
                if which == Which::Restart {
                    compare(&what, &before, &after)?;
                }
                touched = Some(node);
            }
            Op::Forged(node, r, f, way) => {
                let node = *node as usize % n;
                let flo = forged_realm(*r, *f);
                let wrap = |m: MessageClosest| NetworkWrapper::wrap_yaml("DHTStorage", &m).unwrap();
                let (from, key) = (node_id(7), (*flo.flo_id()));
                if raw(&flo.flo_id()) != raw(&flo.realm_id()) {
                    known.insert((raw(&flo.realm_id()), raw(&flo.flo_id())));
                }
                let nd = &mut net.nodes[node];
                match way % 4 {
                    0 => nd.storage.store_flo(flo).unwrap(),
                    1 => nd
                        .router
                        .emit_msg_out(DHTRouterOut::MessageClosest(
                            from,
                            from,
                            key,
                            wrap(MessageClosest::StoreFlo(flo)),
                        ))
                        .unwrap(),
                    2 => nd
                        .router
                        .emit_msg_out(DHTRouterOut::MessageNeighbour(
                            from,
                            NetworkWrapper::wrap_yaml("DHTStorage", &MessageNeighbour::Flos(vec![(flo, vec![])]))
                                .unwrap(),
                        ))
                        .unwrap(),
                    _ => nd
                        .router
                        .emit_msg_out(DHTRouterOut::MessageDest(
                            from,
                            from,
                            NetworkWrapper::wrap_yaml("DHTStorage", &MessageDest::FloValue((flo, vec![])))
                                .unwrap(),
                        ))
                        .unwrap(),
                }
                idle().await;
                c.label("a forged realm");
                touched = Some(node);
            }
            Op::SystemRealm(node, r) => {
                let node = *node as usize % n;
                let rid = realm_id(*r);
                // What was asked before is fine.
                net.collect().await;
                net.sent.clear();
                net.nodes[node]
                    .router
                    .emit_msg_out(DHTRouterOut::SystemRealm(rid.clone()))
                    .unwrap();
                idle().await;
                if !accept[node].contains(&rid) {
                    accept[node].push(rid);
                }
            }
        }
        idle().await;
        match which {
            Which::Restart => {
                // What is on disk is always what is in memory.
                for node in 0..n {
                    if touched.is_some_and(|t| t == node) || matches!(op, Op::Flush) {
                        let now = net.nodes[node].state().await?;
                        let disk = net.nodes[node].shadow_state().await?;
                        compare(&format!("{what}, restart of node {node}"), &now, &disk)?;
                        c.nontrivial(now.1.len() > 2);
                        c.count("compared", 1);
                        c.label_if(now.1.values().any(|h| !h.cuckoos.is_empty()), "with cuckoos");
                    }
                }
            }
            Which::Admission => {
                for (from, w) in std::mem::take(&mut net.sent) {
                    let rid = match w.unwrap_yaml::<MessageNeighbour>(&w.module) {
                        Some(MessageNeighbour::RequestFlos(rid, _))
                        | Some(MessageNeighbour::RequestFloMetas(rid)) => rid,
                        _ => continue,
                    };
                    // A realm from before a restriction is kept and still synchronised.
                    ensure!(
                        accept[from].is_empty()
                            || accept[from].contains(&rid)
                            || net.nodes[from].state().await?.0.contains(&raw(&rid)),
                        "{what}: node {from} asks for a realm which it doesn't accept"
                    );
                }
            }
            _ => {}
        }
        if which != Which::Restart {
            for node in 0..n {
                if touched != Some(node) && !matches!(op, Op::Flush) {
                    continue;
                }
                let (realms, flos) = net.nodes[node].state().await?;
                if which == Which::Admission {
                    admission(&what, node, &realms, &flos, x, &known, c)?;
                }
                for (k, h) in &flos {
                    let e = best[node].entry(*k).or_default();
                    ensure!(
                        which != Which::Sync || h.version >= *e,
                        "{what}: node {node} went from version {e} of a Flo to {}",
                        h.version
                    );
                    *e = (*e).max(h.version);
                }
                if which == Which::Sync {
                    for k in best[node].keys() {
                        ensure!(
                            flos.contains_key(k),
                            "{what}: node {node} lost a Flo it had stored"
                        );
                    }
                }
            }
        }
    }
    c.count("messages", exchanged as u64);
    c.count("restarts", restarts);
    c.label(format!("nodes={n}"));
    if which == Which::Sync {
        settle(&mut net, x, &accept, &best, &conflicts, c).await?;
    }
    if which == Which::Admission {
        for _ in 0..2 {
            for node in 0..n {
                net.nodes[node].storage.sync().unwrap();
            }
            net.flush().await?;
        }
        for node in 0..n {
            let (realms, flos) = net.nodes[node].state().await?;
            admission("after synchronising", node, &realms, &flos, x, &known, c)?;
        }
        c.nontrivial(x.accept[..n].iter().any(|a| *a != 0) && exchanged > 0);
    }
    for node in &mut net.nodes {
        node.stop().await;
    }
    idle().await;
    Ok(())
}

fn compare(what: &str, before: &State, after: &State) -> TestResult {
    ensure!(
        before.0 == after.0,
        "{what}: {} realms before, {} after",
        before.0.len(),
        after.0.len()
    );
    for (k, b) in &before.1 {
        match after.1.get(k) {
            None => return Err(format!("{what}: a Flo of version {} is lost", b.version)),
            Some(a) => ensure!(
                a == b,
                "{what}: a Flo had version {} with {} bytes and {} cuckoos, and has version {} with {} bytes and {} cuckoos",
                b.version, b.data.len(), b.cuckoos.len(), a.version, a.data.len(), a.cuckoos.len()
            ),
        }
    }
    ensure!(
        before.1.len() == after.1.len(),
        "{what}: Flos appeared out of nowhere"
    );
    Ok(())
}

fn admission(
    what: &str,
    node: usize,
    realms: &BTreeSet<[u8; 32]>,
    flos: &BTreeMap<([u8; 32], [u8; 32]), Held>,
    x: &In,
    known: &BTreeSet<([u8; 32], [u8; 32])>,
    c: &mut Case,
) -> TestResult {
    // SystemRealm messages only add to the realms accepted from now on.
    let mut ok: BTreeSet<[u8; 32]> = allowed(x.accept[node % x.accept.len()] % 3)
        .iter()
        .map(raw)
        .collect();
    let all = ok.is_empty();
    for op in &x.ops {
        if let Op::SystemRealm(n, r) = op {
            if *n as usize % (x.nodes.max(2) as usize) == node {
                ok.insert(raw(&realm_id(*r)));
            }
        }
    }
    for r in realms {
        ensure!(
            all || ok.contains(r),
            "{what}: node {node} holds a realm which it doesn't accept"
        );
        // Known finding: the realm has been created by a Flo which only looks like the realm.
        let forged = known.iter().any(|(fr, f)| fr == r && flos.contains_key(&(*fr, *f)));
        c.label_if(forged && !flos.contains_key(&(*r, *r)), "created by a forged realm");
        ensure!(
            forged || flos.contains_key(&(*r, *r)),
            "{what}: node {node} holds a realm without the realm's Flo"
        );
    }
    for (r, _) in flos.keys() {
        ensure!(
            realms.contains(r),
            "{what}: node {node} holds a Flo of a realm which it doesn't have"
        );
    }
    c.label_if(!all && !realms.is_empty(), "restricted node with realm");
    Ok(())
}

async fn settle(
    net: &mut Net,
    x: &In,
    accept: &[Vec<RealmID>],
    best: &[BTreeMap<([u8; 32], [u8; 32]), u32>],
    conflicts: &BTreeSet<u8>,
    c: &mut Case,
) -> TestResult {
    let n = net.nodes.len();
    net.flush().await?;
    // Every round brings a version or a cuckoo a step further, or all is done.
    for round in 0.. {
        net.collect().await;
        net.sent.clear();
        for node in 0..n {
            net.nodes[node].storage.sync().unwrap();
        }
        net.flush().await?;
        let busy = net.sent.iter().any(|(_, w)| {
            matches!(
                w.unwrap_yaml::<MessageNeighbour>(&w.module),
                Some(MessageNeighbour::RequestFlos(..)) | Some(MessageNeighbour::Flos(..))
            )
        });
        if !busy && round > n {
            break;
        }
        c.label_if(round == n + 1, "needs more rounds");
        ensure!(
            round < 3 * n * (FLOS as usize + 1),
            "the nodes still exchange Flos after synchronising {round} times"
        );
    }
    let mut states = vec![];
    for node in 0..n {
        states.push(net.nodes[node].state().await?);
    }
    // Once everybody has everything, nothing is requested any more.
    net.sent.clear();
    for node in 0..n {
        net.nodes[node].storage.sync().unwrap();
    }
    net.flush().await?;
    for (from, w) in &net.sent {
        ensure!(
            !matches!(
                w.unwrap_yaml::<MessageNeighbour>(&w.module),
                Some(MessageNeighbour::RequestFlos(..)) | Some(MessageNeighbour::Flos(..))
            ),
            "node {from} still exchanges Flos after synchronising {} times: {}",
            n + 2,
            w.msg.chars().take(300).collect::<String>()
        );
    }
    for r in 0..REALMS {
        let rid = realm_id(r);
        let takes: Vec<bool> = (0..n)
            .map(|i| accept[i].is_empty() || accept[i].contains(&rid))
            .collect();
        // Components of nodes which accept the realm
        let mut comp: Vec<usize> = (0..n).collect();
        for _ in 0..n {
            for (a, b) in &net.edges {
                if takes[*a] && takes[*b] {
                    let m = comp[*a].min(comp[*b]);
                    comp[*a] = m;
                    comp[*b] = m;
                }
            }
        }
        for root in 0..n {
            let members: Vec<usize> = (0..n).filter(|i| comp[*i] == root && takes[*i]).collect();
            let mut want: BTreeMap<[u8; 32], u32> = BTreeMap::new();
            for m in &members {
                let has = states[*m].1.iter().map(|(k, h)| (k, &h.version));
                for ((realm, id), v) in best[*m].iter().chain(has) {
                    if *realm == raw(&rid) {
                        let e = want.entry(*id).or_default();
                        *e = (*e).max(*v);
                    }
                }
            }
            if want.is_empty() {
                continue;
            }
            c.nontrivial(members.len() > 1 && want.len() > 2);
            for m in &members {
                ensure!(
                    states[*m].0.contains(&raw(&rid)),
                    "node {m} never got realm {r}, but its neighbours have it"
                );
                for (id, v) in &want {
                    let h = states[*m].1.get(&(raw(&rid), *id));
                    let h = match h {
                        Some(h) => h,
                        None => {
                            return Err(format!(
                                "node {m} never got a Flo of realm {r} which its neighbours have"
                            ))
                        }
                    };
                    ensure!(
                        h.version == *v,
                        "node {m} has version {} of a Flo of realm {r}, while version {v} is known",
                        h.version
                    );
                }
            }
            for (a, b) in &net.edges {
                if comp[*a] != root || comp[*b] != root || !takes[*a] || !takes[*b] {
                    continue;
                }
                for id in want.keys() {
                    let k = (raw(&rid), *id);
                    let (ha, hb) = (&states[*a].1[&k], &states[*b].1[&k]);
                    let f = (0..FLOS).find(|f| raw(&flo_id(*f)) == *id);
                    if f.is_none_or(|f| !conflicts.contains(&f)) {
                        ensure!(
                            ha.data == hb.data,
                            "nodes {a} and {b} have the same version of a Flo with different content"
                        );
                    }
                    // Only the number of cuckoos is announced: see the known finding.
                    ensure!(
                        ha.cuckoos.len() == hb.cuckoos.len(),
                        "nodes {a} and {b} have {} and {} cuckoos of the same Flo",
                        ha.cuckoos.len(),
                        hb.cuckoos.len()
                    );
                    c.label_if(!ha.cuckoos.is_empty(), "cuckoos synchronised");
                    c.label_if(ha.cuckoos != hb.cuckoos, "equally many different cuckoos");
                }
            }
        }
    }
    let _ = x;
    Ok(())
}

/// Two nodes which know one different cuckoo each.
fn cuckoos_merge() -> bool {
    block_on(async {
        let mut net = Net {
            nodes: vec![],
            edges: [(0, 1)].into(),
            pool: vec![],
            route: false,
            sent: vec![],
        };
        for i in 0..2 {
            net.nodes.push(
                Node::start(node_id(i), MemDs::default(), DHTConfig::default(node_id(i))).await,
            );
        }
        for i in 0..2 {
            let n = &mut net.nodes[i];
            n.storage.store_flo(make_realm_flo(0, 0, 1_000_000)).unwrap();
            n.storage.store_flo(make(0, 0, 0, None, 0, 10)).unwrap();
            idle().await;
            let n = &mut net.nodes[i];
            // As when the registration arrives over the network: the cuckoo itself isn't here.
            n.router
                .emit_msg_out(DHTRouterOut::MessageClosest(
                    node_id(7),
                    node_id(7),
                    *flo_id(0),
                    NetworkWrapper::wrap_yaml(
                        "DHTStorage",
                        &flmodules::dht_storage::intern::MessageClosest::StoreCuckooID(
                            GlobalID::new(realm_id(0), flo_id(1 + i as u8)),
                        ),
                    )
                    .unwrap(),
                ))
                .unwrap();
            idle().await;
        }
        for _ in 0..3 {
            for i in 0..2 {
                net.nodes[i].storage.sync().unwrap();
            }
            net.flush().await.unwrap();
        }
        let a = net.nodes[0].state().await.unwrap();
        let b = net.nodes[1].state().await.unwrap();
        let k = (raw(&realm_id(0)), raw(&flo_id(0)));
        assert_eq!(a.1[&k].cuckoos.len(), 1);
        a.1[&k].cuckoos == b.1[&k].cuckoos
    })
}

pub fn run_sync(ctx: &mut Ctx) {
    ctx.assume("the network between the nodes is simulated: messages to neighbours, along a greedy route and direct answers; Flos have the Pass rule and forced IDs; there is enough space");
    ctx.sub(
        Spec {
            name: "convergence",
            rule: "2..5 real DHT storages on a random graph, up to 44 steps of stores (also conflicting versions, and up to 254 Flos at once), single deliveries in any order, losses, repetitions, restarts, then lossless synchronisation; non-trivial if at least two connected nodes share at least three Flos in the end",
            quick: 12_000,
            thorough: 500_000,
            max_s: 60,
        },
        vec![],
        || strat(Which::Sync),
        |x, c| block_on(run_net(Which::Sync, x, c)),
    );
    ctx.probe_known(
        "cuckoo-sets-of-equal-size",
        serde_json::json!("two nodes know one different cuckoo of the same Flo each, and synchronise"),
        || !cuckoos_merge(),
    );
}

pub fn run_restart(ctx: &mut Ctx) {
    ctx.assume("the network between the nodes is simulated; the storage is in memory, files are looked at in C22");
    ctx.sub(
        Spec {
            name: "restart",
            rule: "2..5 real DHT storages exchanging Flos and cuckoos in any order with losses; after each step the touched node is started a second time from its persisted data and compared; non-trivial if a compared node has more than two Flos",
            quick: 12_000,
            thorough: 500_000,
            max_s: 60,
        },
        vec![],
        || strat(Which::Restart),
        |x, c| block_on(run_net(Which::Restart, x, c)),
    );
}

pub fn run_admission(ctx: &mut Ctx) {
    ctx.assume("the network between the nodes is simulated; realms and Flos have the Pass rule and forced IDs");
    ctx.sub(
        Spec {
            name: "admission",
            rule: "2..5 real DHT storages which accept all or some realms, exchanging Flos of two realms in any order, with system realm announcements and restarts; non-trivial if a node is restricted and messages are exchanged",
            quick: 10_000,
            thorough: 400_000,
            max_s: 60,
        },
        vec![],
        || strat(Which::Admission),
        |x, c| block_on(run_net(Which::Admission, x, c)),
    );
    ctx.probe_known(
        "forged-realm-flo",
        serde_json::json!("a node without the realm stores a Flo of the type of a realm which has another ID than the realm"),
        || {
            block_on(async {
                let mut n = Node::start(node_id(0), MemDs::default(), DHTConfig::default(node_id(0))).await;
                n.storage.store_flo(forged_realm(0, 0)).unwrap();
                idle().await;
                let st = n.state().await.unwrap();
                n.stop().await;
                !st.0.is_empty()
            })
        },
    );
}
