//! C26: storing and reading over the network, with real storages above real routers.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::props::kad::common;
use crate::props::netsim::{flo_id, make, make_realm_flo, raw, realm_id, MemDs, FLOS};
use crate::props::store::Load;
use crate::ensure;
use flarch::nodeids::{NodeID, U256};
use flmodules::dht_router::broker::DHTRouter;
use flmodules::dht_router::intern::ModuleMessage;
use flmodules::dht_router::kademlia::Config;
use flmodules::dht_storage::broker::{DHTStorage, DHTStorageIn, DHTStorageOut};
use flmodules::dht_storage::core::DHTConfig;
use flmodules::dht_storage::intern::MessageClosest;
use flmodules::flo::flo::{Flo, FloID};
use flmodules::flo::realm::GlobalID;
use flmodules::nodeconfig::NodeInfo;
use flmodules::router::broker::BrokerRouter;
use flmodules::router::messages::{NetworkWrapper, RouterIn, RouterOut};
use flmodules::timer::{BrokerTimer, TimerMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tokio::sync::mpsc::UnboundedReceiver;

/// The realm's own Flo is the last one.
const REALM: u8 = FLOS;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// node, Flo, version
    Store(u8, u8, u8),
    Read(u8, u8),
    Cuckoos(u8, u8),
    /// More than one request at the same time
    Many(Vec<(u8, u8, Option<u8>)>),
    Sync(u8),
    Propagate(u8),
    Restart(u8),
    Tick,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    /// Flo and number of bits in common with it, and what follows
    ids: Vec<(u8, u8, u8)>,
    k: u8,
    /// Parents of the Flos
    parents: Vec<Option<u8>>,
    /// The nodes which never take the realm
    without: Vec<u8>,
    /// The nodes which don't have the realm at the beginning
    empty: Vec<u8>,
    order: Vec<u16>,
    ops: Vec<Op>,
}

fn strat() -> BoxedStrategy<In> {
    // Mostly about one Flo, with many nodes around it, so that the ways get longer.
    (0..=REALM).prop_flat_map(strat_focus).boxed()
}

fn strat_focus(focus: u8) -> BoxedStrategy<In> {
    let flo = move || prop_oneof![1 => Just(focus), 1 => 0..=REALM];
    let one = move || (any::<u8>(), flo());
    let op = prop_oneof![
        8 => (one(), 0u8..4).prop_map(|((n, f), v)| Op::Store(n, f, v)),
        8 => one().prop_map(|(n, f)| Op::Read(n, f)),
        4 => one().prop_map(|(n, f)| Op::Cuckoos(n, f)),
        3 => proptest::collection::vec((any::<u8>(), flo(), proptest::option::weighted(0.7, 0u8..4)), 2..6).prop_map(Op::Many),
        1 => any::<u8>().prop_map(Op::Sync),
        1 => any::<u8>().prop_map(Op::Propagate),
        1 => any::<u8>().prop_map(Op::Restart),
        1 => Just(Op::Tick),
    ];
    let few = |n| prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 0..n)];
    (
        proptest::collection::vec((prop_oneof![3 => Just(focus), 1 => 0..=REALM], 0u8..8, any::<u8>()), 2..9),
        prop_oneof![3 => Just(1u8), 2 => 2u8..4],
        proptest::collection::vec(proptest::option::weighted(0.5, flo()), FLOS as usize),
        few(4),
        few(5),
        proptest::collection::vec(any::<u16>(), 0..32),
        proptest::collection::vec(op, 1..24),
    )
        .prop_map(|(ids, k, parents, without, empty, order, ops)| In {
            ids,
            k,
            parents,
            without,
            empty,
            order,
            ops,
        })
        .boxed()
}

fn fid(f: u8) -> FloID {
    if f % (FLOS + 1) == REALM {
        (*realm_id(0)).into()
    } else {
        flo_id(f % (FLOS + 1))
    }
}

fn gid(f: u8) -> GlobalID {
    GlobalID::new(realm_id(0), fid(f))
}

fn node_id(x: &(u8, u8, u8)) -> NodeID {
    // The first bits are those of the Flo, then a different one.
    let mut b: [u8; 32] = raw(&fid(x.0));
    let bit = x.1.min(7) as usize;
    b[0] ^= 0x80 >> bit;
    b[0] ^= x.2 & (0x7f >> bit);
    b[1] = x.2;
    b.into()
}

struct Node {
    id: NodeID,
    router: BrokerRouter,
    tap: UnboundedReceiver<RouterIn>,
    dht: DHTRouter,
    ds: MemDs,
    cfg: DHTConfig,
    storage: DHTStorage,
    out: UnboundedReceiver<DHTStorageOut>,
    timer: BrokerTimer,
}

struct Overlay {
    nodes: Vec<Node>,
    order: Vec<u16>,
    at: usize,
    /// All requests which arrived at a node: origin, node, ID, request
    hops: Vec<(NodeID, usize, U256, MessageClosest)>,
}

type Held = BTreeMap<[u8; 32], (u32, BTreeSet<[u8; 32]>)>;

impl Overlay {
    async fn settle(&mut self) -> TestResult {
        let mut pool: Vec<(usize, NodeID, NetworkWrapper)> = vec![];
        let mut total = 0;
        loop {
            idle().await;
            for i in 0..self.nodes.len() {
                while let Ok(RouterIn::NetworkWrapperToNetwork(to, w)) = self.nodes[i].tap.try_recv() {
                    pool.push((i, to, w));
                }
            }
            if pool.is_empty() {
                return Ok(());
            }
            // One after the other, in any order, if an order is given.
            let n = if self.order.is_empty() { pool.len() } else { 1 };
            for _ in 0..n {
                let p = if self.order.is_empty() {
                    0
                } else {
                    self.at += 1;
                    self.order[self.at % self.order.len()] as usize * pool.len() >> 16
                };
                let (from, to, w) = pool.remove(p);
                total += 1;
                ensure!(total < 20_000, "the nodes never stop sending messages");
                let Some(t) = self.nodes.iter().position(|n| n.id == to) else {
                    continue;
                };
                if let Some(ModuleMessage::Closest(orig, key, m)) = w.unwrap_yaml("DHTRouter") {
                    if let Some(m) = m.unwrap_yaml("DHTStorage") {
                        self.hops.push((orig, t, key, m));
                    }
                }
                let id = self.nodes[from].id;
                self.nodes[t]
                    .router
                    .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(id, w))
                    .unwrap();
            }
        }
    }

    async fn tick(&mut self) -> TestResult {
        for n in self.nodes.iter_mut() {
            n.timer.emit_msg_out(TimerMessage::Second).unwrap();
        }
        self.settle().await
    }

    fn emit(&mut self, node: usize, msg: DHTStorageIn) {
        self.nodes[node].storage.broker.emit_msg_in(msg).unwrap();
    }

    fn clear(&mut self) {
        self.hops.clear();
        for n in &mut self.nodes {
            while n.out.try_recv().is_ok() {}
        }
    }

    fn outs(&mut self, node: usize) -> Vec<DHTStorageOut> {
        let mut v = vec![];
        while let Ok(m) = self.nodes[node].out.try_recv() {
            v.push(m);
        }
        v
    }

    /// What is on all nodes; None if the node doesn't have the realm
    async fn state(&mut self) -> Result<Vec<Option<Held>>, String> {
        let mut res = vec![];
        for i in 0..self.nodes.len() {
            let realms = self.nodes[i].storage.get_realm_ids().await.map_err(|e| format!("{e}"))?;
            let mut flos = None;
            while self.nodes[i].out.try_recv().is_ok() {}
            self.emit(i, DHTStorageIn::GetFlos);
            idle().await;
            for m in self.outs(i) {
                if let DHTStorageOut::FloValues(f) = m {
                    flos = Some(
                        f.iter()
                            .map(|(f, c)| (raw(&f.flo_id()), (f.version(), c.iter().map(raw).collect())))
                            .collect::<Held>(),
                    );
                }
            }
            let flos = flos.ok_or("the storage doesn't answer")?;
            res.push(realms.contains(&realm_id(0)).then_some(flos));
        }
        Ok(res)
    }

    /// The only closest node to an ID
    fn closest(&self, key: &U256) -> Option<usize> {
        let best = self.nodes.iter().map(|n| common(&n.id, key)).max()?;
        let mut v = (0..self.nodes.len()).filter(|i| common(&self.nodes[*i].id, key) == best);
        v.next().filter(|_| v.next().is_none())
    }

    fn make(&self, x: &In, f: u8, v: u8) -> Flo {
        let f = f % (FLOS + 1);
        if f == REALM {
            make_realm_flo(0, v as u32, 1_000_000)
        } else {
            make(f, 0, v as u32, self.parent(x, f), 0, v as usize * 10)
        }
    }

    fn parent(&self, x: &In, f: u8) -> Option<u8> {
        // A cuckoo of the realm is not possible with the IDs of 'make'
        x.parents
            .get(f as usize)
            .copied()
            .flatten()
            .map(|p| p % FLOS)
            .filter(|_| f != REALM)
    }
}

async fn start_storage(ds: &MemDs, cfg: &DHTConfig, timer: &BrokerTimer, dht: &DHTRouter) -> DHTStorage {
    DHTStorage::start(Box::new(ds.clone()), cfg.clone(), timer.clone(), dht.broker.clone())
        .await
        .unwrap()
}

async fn run_overlay(x: &In, c: &mut Case) -> TestResult {
    let mut ids: Vec<NodeID> = x.ids.iter().map(node_id).collect();
    let mut seen = BTreeSet::new();
    ids.retain(|i| seen.insert(*i));
    let n = ids.len();
    let mut net = Overlay {
        nodes: vec![],
        order: x.order.clone(),
        at: 0,
        hops: vec![],
    };
    for (i, id) in ids.iter().enumerate() {
        let mut router = BrokerRouter::new();
        let timer = BrokerTimer::new();
        let tap = router.get_tap_in().await.unwrap().0;
        let dht = DHTRouter::start(
            Config {
                root: *id,
                k: x.k.max(1) as usize,
                ping_interval: 1,
                ping_timeout: 3,
            },
            timer.clone(),
            router.clone(),
        )
        .await
        .unwrap();
        let ds = MemDs::default();
        let mut cfg = DHTConfig::default(*id);
        if x.without.iter().any(|w| *w as usize % n == i) {
            cfg.realms = vec![realm_id(1)];
        }
        let mut storage = start_storage(&ds, &cfg, &timer, &dht).await;
        let out = storage.broker.get_tap_out().await.unwrap().0;
        net.nodes.push(Node {
            id: *id,
            router,
            tap,
            dht,
            ds,
            cfg,
            storage,
            out,
            timer,
        });
    }
    let res = run_ops(x, &mut net, &ids, c).await;
    for node in net.nodes.iter_mut() {
        unlink(&mut node.router).await;
        unlink(&mut node.timer).await;
        unlink(&mut node.dht.broker).await;
        unlink(&mut node.storage.broker).await;
    }
    res
}

async fn run_ops(x: &In, net: &mut Overlay, ids: &[NodeID], c: &mut Case) -> TestResult {
    let n = ids.len();
    let at = |i: &u8| *i as usize % n;
    for i in 0..n {
        if !x.empty.iter().any(|e| at(e) == i) {
            net.nodes[i].storage.store_flo(make_realm_flo(0, 0, 1_000_000)).unwrap();
        }
    }
    // Nobody knows anybody else, so nothing is sent. Now they get to know each other.
    net.settle().await?;
    for round in 0..12 {
        if round % 4 == 0 {
            for i in 0..n {
                let infos = ids.iter().filter(|id| **id != ids[i]);
                let infos = infos.map(|id| NodeInfo::new_from_id(*id)).collect();
                net.nodes[i].router.emit_msg_out(RouterOut::NodeInfoAvailable(infos)).unwrap();
            }
        }
        net.tick().await?;
    }
    let mut max: BTreeMap<[u8; 32], u32> = BTreeMap::new();
    for (j, op) in x.ops.iter().enumerate() {
        let what = format!("op {j} ({op:?})");
        let before = net.state().await?;
        net.clear();
        // Origin, Flo, and version for a store
        let mut asked: Vec<(usize, u8, Option<u8>)> = vec![];
        let mut cuckoos = None;
        match op {
            Op::Store(a, f, v) => asked.push((at(a), *f, Some(*v))),
            Op::Read(a, f) => asked.push((at(a), *f, None)),
            Op::Many(v) => asked.extend(v.iter().map(|(a, f, v)| (at(a), *f, *v))),
            Op::Cuckoos(a, f) => {
                net.emit(at(a), DHTStorageIn::ReadCuckooIDs(gid(*f)));
                cuckoos = Some((at(a), *f));
            }
            Op::Sync(a) => net.nodes[at(a)].storage.sync().unwrap(),
            Op::Propagate(a) => net.nodes[at(a)].storage.propagate().unwrap(),
            Op::Restart(a) => {
                let node = &mut net.nodes[at(a)];
                unlink(&mut node.storage.broker).await;
                // The old storage is still linked to the router: start all of it again.
                unlink(&mut node.dht.broker).await;
                let mut router = BrokerRouter::new();
                let timer = BrokerTimer::new();
                let tap = router.get_tap_in().await.unwrap().0;
                let cfg = node.dht_config(x.k);
                node.dht = DHTRouter::start(cfg, timer.clone(), router.clone()).await.unwrap();
                node.storage = start_storage(&node.ds, &node.cfg, &timer, &node.dht).await;
                node.out = node.storage.broker.get_tap_out().await.unwrap().0;
                unlink(&mut node.router).await;
                unlink(&mut node.timer).await;
                node.router = router;
                node.timer = timer;
                node.tap = tap;
                let infos = ids.iter().filter(|id| **id != ids[at(a)]);
                let infos = infos.map(|id| NodeInfo::new_from_id(*id)).collect();
                node.router.emit_msg_out(RouterOut::NodeInfoAvailable(infos)).unwrap();
                net.settle().await?;
                for _ in 0..8 {
                    net.tick().await?;
                }
                c.label("restart");
                continue;
            }
            Op::Tick => net.tick().await?,
        }
        for (a, f, v) in &asked {
            match v {
                Some(v) => {
                    let flo = net.make(x, *f, *v);
                    let e = max.entry(raw(&flo.flo_id())).or_default();
                    *e = (*e).max(*v as u32);
                    net.nodes[*a].storage.store_flo(flo).unwrap();
                }
                None => net.emit(*a, DHTStorageIn::ReadFlo(gid(*f))),
            }
        }
        net.settle().await?;
        let outs: Vec<Vec<DHTStorageOut>> = (0..n).map(|i| net.outs(i)).collect();
        let hops = std::mem::take(&mut net.hops);
        let after = net.state().await?;
        let many = matches!(op, Op::Many(_));
        let version = |st: &[Option<Held>], i: usize, id: &[u8; 32]| {
            st[i].as_ref().and_then(|h| h.get(id)).map(|h| h.0)
        };
        // What the nodes did with the messages which they got.
        for (orig, t, key, m) in &hops {
            let id = raw(key);
            let o = ids.iter().position(|i| i == orig).ok_or("a request from nowhere")?;
            match m {
                MessageClosest::StoreFlo(flo) => {
                    ensure!(raw(&flo.flo_id()) == id, "{what}: a Flo is sent to another ID");
                    ensure!(
                        after[*t].is_none()
                            || (before[*t].is_none() && flo.flo_id() != fid(REALM))
                            || version(&after, *t, &id) >= Some(flo.version()),
                        "{what}: node {t} got version {} of a Flo to store, but has {:?}",
                        flo.version(),
                        version(&after, *t, &id)
                    );
                    c.count("stored on the way", 1);
                }
                MessageClosest::StoreCuckooID(g) => {
                    if let Some((_, cu)) = before[*t].as_ref().and_then(|h| h.get(&id)) {
                        let now = after[*t].as_ref().and_then(|h| h.get(&id)).map(|h| &h.1);
                        ensure!(
                            now.is_some_and(|now| now.contains(&raw(g.flo_id()))),
                            "{what}: node {t} doesn't list a cuckoo which has been announced to it"
                        );
                        c.label_if(!cu.contains(&raw(g.flo_id())), "cuckoo announced");
                    }
                }
                MessageClosest::ReadFlo(_) => {
                    if let Some(v) = version(&before, *t, &id) {
                        ensure!(
                            outs[o].iter().any(|m| matches!(m, DHTStorageOut::FloValue((f, _))
                                if raw(&f.flo_id()) == id && f.version() >= v)),
                            "{what}: node {t} has version {v} of a Flo, but node {o} which asks never gets it"
                        );
                        c.label("read from another node");
                        if net.closest(key).is_some_and(|t| version(&before, t, &id).is_none()) {
                            c.label("read on the way, but not from the closest");
                        }
                    }
                }
                MessageClosest::GetCuckooIDs(_) => {
                    if let Some((_, cu)) = before[*t].as_ref().and_then(|h| h.get(&id)) {
                        let mut got = BTreeSet::new();
                        for m in &outs[o] {
                            if let DHTStorageOut::CuckooIDs(g, l) = m {
                                ensure!(raw(g.flo_id()) == id, "{what}: cuckoos of another Flo");
                                got.extend(l.iter().map(raw));
                            }
                        }
                        ensure!(
                            cu.is_subset(&got),
                            "{what}: node {t} knows {} cuckoos, but node {o} only gets {}",
                            cu.len(),
                            got.len()
                        );
                        c.label_if(!cu.is_empty(), "cuckoos from another node");
                    }
                }
            }
        }
        // What the one who asks can expect
        for (a, f, v) in &asked {
            let id = raw(&fid(*f));
            let closest = net.closest(&fid(*f));
            match v {
                Some(v) => {
                    let v = *v as u32;
                    // Without the realm, nothing is stored.
                    let had = before[*a].is_some() || *f % (FLOS + 1) == REALM;
                    if after[*a].is_some() && had {
                        ensure!(
                            version(&after, *a, &id) >= Some(v),
                            "{what}: node {a} stored version {v}, but has {:?}",
                            version(&after, *a, &id)
                        );
                        // It's only passed on if it is new.
                        let new = version(&before, *a, &id).is_none_or(|b| b < v);
                        if let Some(t) = closest.filter(|t| new && after[*t].is_some() && (before[*t].is_some() || !many)) {
                            ensure!(
                                version(&after, t, &id) >= Some(v),
                                "{what}: node {a} stored version {v}, but node {t}, which is the closest one, has {:?}",
                                version(&after, t, &id)
                            );
                            c.label_if(t != *a, "stored on the closest");
                        }
                    }
                    let parent = net.parent(x, *f % (FLOS + 1));
                    if let Some(p) = parent {
                        let pid = raw(&fid(p));
                        for t in net.closest(&fid(p)).into_iter().chain([*a]) {
                            if before[t].as_ref().is_some_and(|h| h.contains_key(&pid)) {
                                ensure!(
                                    after[t].as_ref().unwrap()[&pid].1.contains(&id),
                                    "{what}: node {t} has the parent of a new cuckoo, but doesn't list it"
                                );
                                c.label("cuckoo stored");
                            }
                        }
                    }
                }
                None => {
                    let mut got: Vec<u32> = vec![];
                    for m in &outs[*a] {
                        match m {
                            DHTStorageOut::FloValue((flo, _)) if raw(&flo.flo_id()) == id => {
                                let want = net.make(x, *f, flo.version() as u8);
                                ensure!(
                                    flo.data() == want.data() && flo.flo_config() == want.flo_config()
                                        && flo.flo_type() == want.flo_type(),
                                    "{what}: the Flo has another content"
                                );
                                got.push(flo.version());
                            }
                            DHTStorageOut::FloValue((flo, _)) => ensure!(
                                asked.iter().any(|o| o.0 == *a && fid(o.1) == flo.flo_id()),
                                "{what}: got a Flo which nobody asked for"
                            ),
                            _ => {}
                        }
                    }
                    let local = version(&before, *a, &id);
                    let best = got.iter().max().copied();
                    if let Some(l) = local {
                        ensure!(got.contains(&l) || many, "{what}: the stored Flo isn't returned");
                    } else if asked.iter().any(|o| o.0 == *a && fid(o.1) == fid(*f) && o.2.is_some()) {
                        // Stored at the same time.
                        ensure!(best.is_some() || after[*a].is_none() || before[*a].is_none(), "{what}: the stored Flo isn't returned");
                    } else if let Some(t) = closest {
                        let v = version(&before, t, &id);
                        ensure!(
                            best >= v,
                            "{what}: node {t}, which is the closest one, has version {v:?}, but node {a} gets {best:?}"
                        );
                        ensure!(
                            before[*a].is_none() || version(&after, *a, &id) >= v,
                            "{what}: a Flo which has been read isn't kept"
                        );
                        c.label_if(v.is_some() && t != *a, "read from the closest");
                        c.nontrivial(v.is_some() && t != *a);
                    }
                    ensure!(
                        best <= max.get(&id).copied().or(Some(0)),
                        "{what}: a version comes from nowhere"
                    );
                }
            }
        }
        if let Some((a, f)) = cuckoos {
            let id = raw(&fid(f));
            let mut got: BTreeSet<[u8; 32]> = BTreeSet::new();
            let mut answers = 0;
            for m in &outs[a] {
                if let DHTStorageOut::CuckooIDs(g, l) = m {
                    ensure!(*g == gid(f), "{what}: cuckoos of another Flo");
                    got.extend(l.iter().map(raw));
                    answers += 1;
                }
            }
            for t in net.closest(&fid(f)).into_iter().chain([a]) {
                if let Some((_, cu)) = before[t].as_ref().and_then(|h| h.get(&id)) {
                    ensure!(answers > 0, "{what}: no list of cuckoos");
                    ensure!(
                        cu.is_subset(&got),
                        "{what}: node {t} knows {} cuckoos, but node {a} gets {}",
                        cu.len(),
                        got.len()
                    );
                    c.label_if(!cu.is_empty() && t != a, "cuckoos from the closest");
                }
            }
            for g in &got {
                let ok = (0..FLOS).any(|k| {
                    raw(&fid(k)) == *g && net.parent(x, k).is_some_and(|p| fid(p) == fid(f))
                });
                ensure!(ok, "{what}: a Flo is listed as a cuckoo, but isn't one");
            }
        }
        // Nobody ever gives up anything.
        for i in 0..n {
            let Some(b) = &before[i] else { continue };
            let a = after[i].as_ref().ok_or(format!("{what}: node {i} lost the realm"))?;
            for (id, (v, cu)) in b {
                let Some((av, acu)) = a.get(id) else {
                    return Err(format!("{what}: node {i} lost a Flo"));
                };
                ensure!(av >= v, "{what}: node {i} went back from version {v} to {av}");
                ensure!(cu.is_subset(acu), "{what}: node {i} lost a cuckoo");
            }
        }
        c.count("messages", hops.len() as u64);
    }
    // The convenience methods, from every node.
    let st = net.state().await?;
    for f in 0..=REALM {
        let id = raw(&fid(f));
        let a = f as usize % n;
        let Some(v) = st[a].as_ref().and_then(|h| h.get(&id)) else { continue };
        if f == REALM {
            continue;
        }
        let got = net.nodes[a].storage.get_flo::<Load>(&gid(f)).await;
        ensure!(
            got.as_ref().is_ok_and(|g| g.flo().version() == v.0),
            "get_flo of a stored Flo fails: {:?}",
            got.err()
        );
        let got = net.nodes[a].storage.get_cuckoos(&gid(f)).await;
        ensure!(
            got.as_ref().is_ok_and(|g| g.iter().map(raw).collect::<BTreeSet<_>>() == v.1),
            "get_cuckoos of a stored Flo fails: {:?}",
            got.err()
        );
    }
    c.label(format!("nodes={n}"));
    Ok(())
}

impl Node {
    fn dht_config(&self, k: u8) -> Config {
        Config {
            root: self.id,
            k: k.max(1) as usize,
            ping_interval: 1,
            ping_timeout: 3,
        }
    }
}

fn run(x: &In, c: &mut Case) -> TestResult {
    let r = block_on(run_overlay(x, c));
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

pub fn run_store(ctx: &mut Ctx) {
    ctx.assume("the network delivers all messages, in any order; all nodes are up, and have been told of each other; there is enough space; an ID to which several nodes are equally close has no node which must have it");
    ctx.sub(
        Spec {
            name: "overlay",
            rule: "2 to 8 real storages above real routers, with any positions around the Flos, storing, reading and listing cuckoos from any node, one after the other and at the same time, with messages in any order; non-trivial if a Flo is read from the closest node",
            quick: 2_500,
            thorough: 120_000,
            max_s: 75,
        },
        vec![],
        strat,
        run,
    );
}
