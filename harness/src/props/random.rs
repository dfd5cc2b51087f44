//! C16: the random connections of a node.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::gen::u256;
use crate::{ensure, ensure_eq};
use flarch::broker::Broker;
use flarch::nodeids::NodeID;
use flmodules::network::broker::{BrokerNetwork, NetworkIn, NetworkOut, MODULE_NAME};
use flmodules::network::signal::FledgerConfig;
use flmodules::nodeconfig::NodeInfo;
use flmodules::random_connections::broker::{RandomBroker, RandomIn, RandomOut};
use flmodules::random_connections::intern::ModuleMessage;
use flmodules::random_connections::nodes::{NodeTime, Nodes};
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::{BrokerTimer, TimerMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tokio::sync::mpsc::UnboundedReceiver;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A list with these nodes, and how they are called. Node 0 is the node itself.
    List(Vec<u8>, u8),
    Connected(u8),
    Disconnected(u8),
    /// An attempt succeeds or fails
    Answer(u8, bool),
    From(u8, u8),
    Drop(u8),
    Failure(u8),
    Send(u8, u8),
    Tick(u8),
    Garbage(u8, u8),
    Other(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    nodes: u8,
    ops: Vec<Op>,
    /// Nodes which don't answer in the end
    dead: Vec<u8>,
}

/// After so many ticks, an attempt is considered as failed
const TIMEOUT: u32 = 10;
/// And so long it may take at most
const GRACE: u32 = 30;
/// How often one more connection is started
const FILL: u32 = 10;

fn strat() -> BoxedStrategy<In> {
    let b = any::<u8>;
    (
        2u8..16,
        prop::collection::vec(
            prop_oneof![
                4 => (prop::collection::vec(b(), 0..16), b()).prop_map(|(l, n)| Op::List(l, n)),
                3 => b().prop_map(Op::Connected),
                3 => b().prop_map(Op::Disconnected),
                6 => (b(), prop::bool::weighted(0.75)).prop_map(|(a, o)| Op::Answer(a, o)),
                3 => (b(), b()).prop_map(|(n, m)| Op::From(n, m)),
                1 => b().prop_map(Op::Drop),
                1 => b().prop_map(Op::Failure),
                4 => (b(), b()).prop_map(|(n, m)| Op::Send(n, m)),
                5 => prop_oneof![3 => 1u8..4, 1 => 4u8..40].prop_map(Op::Tick),
                1 => (b(), b()).prop_map(|(n, m)| Op::Garbage(n, m)),
                1 => b().prop_map(Op::Other),
            ],
            1..40,
        ),
        prop::collection::vec(b(), 0..4),
    )
        .prop_map(|(nodes, ops, dead)| In { nodes, ops, dead })
        .boxed()
}

fn needed(n: usize) -> usize {
    match n {
        0 | 1 => n,
        n => ((n as f64).ln() * 2.).ceil() as usize,
    }
}

fn id(i: usize) -> NodeID {
    u256(1000 + i as u64)
}

fn flat(i: &NodeInfo) -> String {
    format!("{} {} {}", i.get_id(), i.name, i.client)
}

struct Sim {
    n: usize,
    rnd: RandomBroker,
    net: BrokerNetwork,
    timer: BrokerTimer,
    out: UnboundedReceiver<RandomOut>,
    to_net: UnboundedReceiver<NetworkIn>,
    ticks: u32,
    connected: BTreeSet<NodeID>,
    /// When a connection to a node was tried last, and it got neither an answer nor given up
    attempts: BTreeMap<NodeID, u32>,
    /// What it must know, and what it may know
    known: BTreeSet<NodeID>,
    ever: BTreeSet<NodeID>,
    infos: BTreeMap<NodeID, NodeInfo>,
    names: BTreeMap<(NodeID, u8), NodeInfo>,
    asked: usize,
}

#[derive(Default)]
struct Seen {
    ids: Option<Vec<NodeID>>,
    infos: Option<Vec<NodeInfo>>,
    from: Vec<(NodeID, NetworkWrapper)>,
    to: Vec<(NodeID, NetworkWrapper)>,
    disconnect: Vec<NodeID>,
    connect: Vec<NodeID>,
}

impl Sim {
    fn node(&self, i: u8) -> NodeID {
        id(1 + i as usize % (self.n - 1))
    }

    fn info(&mut self, n: NodeID, name: u8) -> NodeInfo {
        self.names
            .entry((n, name & 1))
            .or_insert_with(|| {
                let mut i = NodeInfo::new_from_id(n);
                i.name = format!("name {}", name & 1);
                i
            })
            .clone()
    }

    async fn seen(&mut self) -> Result<Seen, String> {
        idle().await;
        let mut s = Seen::default();
        while let Ok(m) = self.out.try_recv() {
            match m {
                RandomOut::NodeIDsConnected(l) => s.ids = Some(l.0),
                RandomOut::NodeInfosConnected(l) => s.infos = Some(l),
                RandomOut::NetworkWrapperFromNetwork(n, w) => s.from.push((n, w)),
            }
        }
        while let Ok(m) = self.to_net.try_recv() {
            match m {
                NetworkIn::Connect(n) => s.connect.push(n),
                NetworkIn::Disconnect(n) => s.disconnect.push(n),
                NetworkIn::MessageToNode(n, w) => s.to.push((n, w)),
                m => return Err(format!("the network gets {m}")),
            }
        }
        let p = take_panics();
        ensure!(p.is_empty(), "{p:?}");
        Ok(s)
    }

    fn gone(&mut self, n: NodeID) {
        self.connected.remove(&n);
        self.attempts.remove(&n);
        self.known.remove(&n);
    }

    fn joined(&mut self, n: NodeID) {
        self.connected.insert(n);
        self.attempts.remove(&n);
        self.known.insert(n);
        self.ever.insert(n);
    }

    fn busy(&self, age: u32) -> usize {
        self.attempts
            .values()
            .filter(|t| self.ticks - **t < age)
            .count()
    }

    /// Whom it could try to connect to for sure
    fn candidates(&self) -> usize {
        self.known
            .iter()
            .filter(|n| !self.connected.contains(n) && !self.attempts.contains_key(n))
            .count()
    }

    fn missing(&self) -> bool {
        self.connected.len() + self.busy(GRACE) < needed(self.known.len())
    }

    fn check_connects(&mut self, s: &Seen) -> TestResult {
        for n in &s.connect {
            ensure!(*n != id(0), "it connects to itself");
            ensure!(self.ever.contains(n), "it connects to {n}, which it cannot know");
            ensure!(
                !self.connected.contains(n),
                "it connects to a node which is connected"
            );
            if let Some(t) = self.attempts.get(n) {
                ensure!(
                    self.ticks - t >= TIMEOUT,
                    "it connects to a node twice within {} seconds",
                    self.ticks - t
                );
            }
            let total = self.connected.len() + self.busy(TIMEOUT);
            ensure!(
                total < needed(self.ever.len()),
                "it asks for another connection although it has {total}, and knows {}",
                self.ever.len()
            );
            self.attempts.insert(*n, self.ticks);
            self.asked += 1;
        }
        Ok(())
    }

    /// Half of the connections must be there or on their way, if there are enough nodes
    fn check_enough(&self) -> TestResult {
        let half = (needed(self.known.len()) + 1) / 2;
        let total = self.connected.len() + self.busy(GRACE);
        ensure!(
            total >= half || self.candidates() == 0,
            "it has or tries only {total} connections of {half}, but knows {} other nodes",
            self.candidates()
        );
        Ok(())
    }

    fn check_connected(&self, s: &Seen, all: bool) -> TestResult {
        if all {
            ensure!(
                s.ids.is_some() && s.infos.is_some(),
                "the connected nodes aren't reported"
            );
        }
        let want: Vec<NodeID> = self.connected.iter().cloned().collect();
        if let Some(ids) = &s.ids {
            let mut ids = ids.clone();
            ids.sort();
            ensure_eq!(ids, want, "reported connected nodes");
        }
        if let Some(infos) = &s.infos {
            let mut have: Vec<String> = infos.iter().map(flat).collect();
            have.sort();
            let mut want: Vec<String> = want
                .iter()
                .filter_map(|n| self.infos.get(n).map(flat))
                .collect();
            want.sort();
            ensure_eq!(have, want, "reported informations of the connected nodes");
        }
        Ok(())
    }

    fn check_quiet(&self, s: &Seen) -> TestResult {
        ensure!(s.from.is_empty(), "messages from nowhere: {:?}", s.from);
        ensure!(s.to.is_empty(), "messages from nowhere: {:?}", s.to);
        Ok(())
    }

    fn event(&mut self, m: NetworkOut) {
        self.net.emit_msg_out(m).unwrap();
    }

    async fn tick(&mut self) -> TestResult {
        self.ticks += 1;
        self.timer.emit_msg_out(TimerMessage::Second).unwrap();
        let s = self.seen().await?;
        self.check_quiet(&s)?;
        ensure_eq!(s.disconnect, vec![], "nodes disconnected without a reason");
        // Attempts which were given up
        for (n, t) in &self.attempts {
            if self.ticks - t >= TIMEOUT {
                self.known.remove(n);
            }
        }
        self.check_connects(&s)?;
        self.check_connected(&s, true)?;
        self.check_enough()?;
        let stats = self.rnd.stats.borrow().clone();
        let ids: Vec<NodeID> = stats.connected.0.iter().map(|n| n.id).collect();
        let set: BTreeSet<NodeID> = ids.iter().cloned().collect();
        ensure_eq!(set, self.connected, "connected nodes in the statistics");
        ensure_eq!(set.len(), ids.len(), "different connected nodes in the statistics");
        let mut con = BTreeSet::new();
        for n in &stats.connecting.0 {
            ensure!(con.insert(n.id), "a node is twice in the connecting nodes");
            ensure!(
                self.attempts.contains_key(&n.id),
                "a node which nobody tries to connect to is in the connecting nodes"
            );
            ensure!(n.ticks <= GRACE, "an attempt lasts {} seconds", n.ticks);
        }
        ensure_eq!(
            stats.known.0.iter().collect::<BTreeSet<_>>().len(),
            stats.known.0.len(),
            "different known nodes"
        );
        Ok(())
    }

    async fn ticks(&mut self, k: u32) -> TestResult {
        let mut waiting = 0;
        for _ in 0..k {
            let before = self.asked;
            let could = self.missing() && self.candidates() > 0;
            self.tick().await?;
            waiting = if could && before == self.asked { waiting + 1 } else { 0 };
            ensure!(
                waiting <= FILL,
                "no new connection for {waiting} seconds, although it has {} of {} and knows {} others",
                self.connected.len(),
                needed(self.known.len()),
                self.candidates()
            );
        }
        Ok(())
    }

    async fn list(&mut self, l: &[NodeID], name: u8) -> TestResult {
        let infos: Vec<NodeInfo> = l.iter().map(|n| self.info(*n, name)).collect();
        for i in &infos {
            if i.get_id() != id(0) {
                self.known.insert(i.get_id());
                self.ever.insert(i.get_id());
                self.infos.insert(i.get_id(), i.clone());
            }
        }
        self.event(NetworkOut::NodeListFromWS(infos));
        let s = self.seen().await?;
        self.check_quiet(&s)?;
        ensure_eq!(s.disconnect, vec![], "nodes disconnected by a list");
        // It may take some more time for those which are tried in this moment
        self.check_connects(&s)?;
        self.check_connected(&s, false)?;
        self.check_enough()
    }
}

fn wrapper(m: u8) -> NetworkWrapper {
    NetworkWrapper {
        module: ["Gossip", "Random", "", "a: b\n- c"][m as usize % 4].into(),
        msg: format!("\"{m}\n: {{"),
    }
}

fn wrapped(w: &NetworkWrapper) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml(MODULE_NAME, &ModuleMessage::Module(w.clone())).unwrap()
}

async fn run_ops(x: &In, s: &mut Sim, c: &mut Case) -> TestResult {
    let mut passed = 0;
    for op in &x.ops {
        match op {
            Op::List(l, name) => {
                let l: Vec<NodeID> = l.iter().map(|i| id(*i as usize % s.n)).collect();
                s.list(&l, *name).await?;
            }
            Op::Connected(n) => {
                let n = s.node(*n);
                s.joined(n);
                s.event(NetworkOut::Connected(n));
                let o = s.seen().await?;
                s.check_quiet(&o)?;
                ensure_eq!(o.disconnect, vec![], "nodes disconnected by a connection");
                s.check_connects(&o)?;
                s.check_connected(&o, true)?;
            }
            Op::Answer(a, ok) => {
                let open: Vec<NodeID> = s.attempts.keys().cloned().collect();
                if open.is_empty() {
                    continue;
                }
                let n = open[*a as usize % open.len()];
                if *ok {
                    s.joined(n);
                    s.event(NetworkOut::Connected(n));
                } else {
                    s.gone(n);
                    s.event(NetworkOut::Disconnected(n));
                }
                let o = s.seen().await?;
                s.check_quiet(&o)?;
                ensure_eq!(o.disconnect, vec![], "nodes disconnected by an answer");
                s.check_connects(&o)?;
                s.check_connected(&o, true)?;
            }
            Op::Disconnected(n) => {
                let n = s.node(*n);
                s.gone(n);
                s.event(NetworkOut::Disconnected(n));
                let o = s.seen().await?;
                s.check_quiet(&o)?;
                ensure_eq!(o.disconnect, vec![], "other nodes disconnected");
                s.check_connects(&o)?;
                s.check_connected(&o, true)?;
                s.check_enough()?;
            }
            Op::From(n, m) => {
                let n = s.node(*n);
                s.joined(n);
                s.event(NetworkOut::MessageFromNode(n, wrapped(&wrapper(*m))));
                let o = s.seen().await?;
                ensure_eq!(o.from, vec![(n, wrapper(*m))], "for a message from a node");
                ensure_eq!(o.to, vec![], "for a message from a node");
                ensure_eq!(o.disconnect, vec![], "nodes disconnected by a message");
                s.check_connects(&o)?;
                s.check_connected(&o, false)?;
                passed += 1;
            }
            Op::Drop(n) => {
                let n = s.node(*n);
                s.gone(n);
                let w = NetworkWrapper::wrap_yaml(MODULE_NAME, &ModuleMessage::DropConnection).unwrap();
                s.event(NetworkOut::MessageFromNode(n, w));
                let o = s.seen().await?;
                s.check_quiet(&o)?;
                ensure_eq!(o.disconnect, vec![n], "who gets disconnected");
                s.check_connects(&o)?;
                s.check_connected(&o, false)?;
                s.check_enough()?;
            }
            Op::Failure(n) => {
                let n = s.node(*n);
                s.gone(n);
                s.rnd.broker.emit_msg_in(RandomIn::NodeFailure(n)).unwrap();
                let o = s.seen().await?;
                s.check_quiet(&o)?;
                ensure_eq!(o.disconnect, vec![n], "who gets disconnected");
                s.check_connects(&o)?;
                s.check_connected(&o, true)?;
                s.check_enough()?;
            }
            Op::Send(n, m) => {
                let n = s.node(*n);
                let w = wrapper(*m);
                s.rnd
                    .broker
                    .emit_msg_in(RandomIn::NetworkWrapperToNetwork(n, w.clone()))
                    .unwrap();
                let o = s.seen().await?;
                ensure_eq!(o.from, vec![], "for a message to a node");
                ensure_eq!(o.disconnect, vec![], "nodes disconnected by a message");
                if s.connected.contains(&n) {
                    let sent: Vec<_> = o
                        .to
                        .iter()
                        .map(|(n, w)| (*n, w.unwrap_yaml::<ModuleMessage>(MODULE_NAME)))
                        .collect();
                    ensure_eq!(
                        sent,
                        vec![(n, Some(ModuleMessage::Module(w)))],
                        "for a message to a node"
                    );
                    passed += 1;
                } else {
                    ensure_eq!(o.to, vec![], "for a message to a node which isn't connected");
                    // It may start all over with this one.
                    s.gone(n);
                }
                s.check_connects(&o)?;
                s.check_connected(&o, false)?;
            }
            Op::Tick(k) => s.ticks(*k as u32).await?,
            Op::Garbage(n, g) => {
                let n = s.node(*n);
                let w = match g % 6 {
                    0 => wrapper(*g),
                    1 => NetworkWrapper { module: MODULE_NAME.into(), msg: "".into() },
                    2 => NetworkWrapper { module: MODULE_NAME.into(), msg: "Drop".into() },
                    3 => NetworkWrapper { module: MODULE_NAME.into(), msg: "Module: {module: x}".into() },
                    4 => NetworkWrapper { module: "network".into(), msg: "DropConnection".into() },
                    _ => NetworkWrapper {
                        module: MODULE_NAME.into(),
                        msg: "[".repeat(1 + *g as usize),
                    },
                };
                s.event(NetworkOut::MessageFromNode(n, w));
                let o = s.seen().await?;
                s.check_quiet(&o)?;
                ensure_eq!(o.disconnect, vec![], "nodes disconnected by garbage");
                s.check_connects(&o)?;
                s.check_connected(&o, false)?;
            }
            Op::Other(o) => {
                s.event(match o % 2 {
                    0 => NetworkOut::SystemConfig(FledgerConfig { system_realm: None }),
                    _ => NetworkOut::Error("error".into()),
                });
                let o = s.seen().await?;
                s.check_quiet(&o)?;
                ensure_eq!(o.disconnect, vec![], "nodes disconnected by another message");
                s.check_connects(&o)?;
                s.check_connected(&o, false)?;
            }
        }
    }
    s.ticks(2).await?;
    c.nontrivial(s.asked > 0 && !s.connected.is_empty() && passed > 0);
    c.count("asked", s.asked as u64);

    // Now all nodes answer which aren't dead
    let dead: BTreeSet<NodeID> = x.dead.iter().map(|d| s.node(*d)).collect();
    let all: Vec<NodeID> = (0..s.n).map(id).collect();
    for d in &dead {
        if s.connected.contains(d) {
            s.gone(*d);
            s.event(NetworkOut::Disconnected(*d));
            let o = s.seen().await?;
            s.check_connects(&o)?;
        }
    }
    for _ in 0..5 {
        s.list(&all, 0).await?;
        for _ in 0..60 {
            let open: Vec<NodeID> = s.attempts.keys().cloned().collect();
            for n in open.into_iter().filter(|n| !dead.contains(n)) {
                s.joined(n);
                s.event(NetworkOut::Connected(n));
                let o = s.seen().await?;
                s.check_connected(&o, true)?;
                s.check_connects(&o)?;
            }
            s.tick().await?;
        }
    }
    let live = s.n - 1 - dead.len();
    let want = live.min((needed(live) + 1) / 2);
    ensure!(
        s.connected.len() >= want,
        "after 5 minutes it has {} of {want} connections, and {live} nodes would answer",
        s.connected.len()
    );
    c.label_if(!dead.is_empty(), "nodes which don't answer");
    Ok(())
}

fn run(x: &In, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on(async {
        let timer = Broker::new();
        let mut net: BrokerNetwork = Broker::new();
        let mut rnd = RandomBroker::start(id(0), timer.clone(), net.clone()).await.unwrap();
        let out = rnd.broker.get_tap_out().await.unwrap().0;
        let to_net = net.get_tap_in().await.unwrap().0;
        let mut s = Sim {
            n: x.nodes as usize,
            rnd,
            net,
            timer,
            out,
            to_net,
            ticks: 0,
            connected: BTreeSet::new(),
            attempts: BTreeMap::new(),
            known: BTreeSet::new(),
            ever: BTreeSet::new(),
            infos: BTreeMap::new(),
            names: BTreeMap::new(),
            asked: 0,
        };
        let r = run_ops(x, &mut s, c).await;
        unlink(&mut s.timer).await;
        unlink(&mut s.net).await;
        unlink(&mut s.rnd.broker).await;
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

// The list of nodes with their age

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ListOp {
    Add(Vec<u8>),
    Remove(Vec<u8>),
    RemoveMissing(Vec<u8>),
    OldestN(u8),
    NewestN(u8),
    KeepNewest(u8),
    KeepOldest(u8),
    OldestTicks(u8),
    Tick(u8),
}

fn list_strat() -> BoxedStrategy<Vec<ListOp>> {
    let ids = || prop::collection::vec(0u8..12, 0..6);
    prop::collection::vec(
        prop_oneof![
            5 => ids().prop_map(ListOp::Add),
            2 => ids().prop_map(ListOp::Remove),
            1 => prop::collection::vec(0u8..12, 3..12).prop_map(ListOp::RemoveMissing),
            1 => (0u8..5).prop_map(ListOp::OldestN),
            1 => (0u8..5).prop_map(ListOp::NewestN),
            1 => (0u8..12).prop_map(ListOp::KeepNewest),
            1 => (0u8..12).prop_map(ListOp::KeepOldest),
            1 => (0u8..12).prop_map(ListOp::OldestTicks),
            4 => (0u8..3).prop_map(ListOp::Tick),
        ],
        1..25,
    )
    .boxed()
}

fn list_run(x: &Vec<ListOp>, c: &mut Case) -> TestResult {
    let mut nodes = Nodes::new();
    let mut model: BTreeMap<NodeID, u32> = BTreeMap::new();
    let ids = |l: &[u8]| -> Vec<NodeID> { l.iter().map(|i| id(*i as usize)).collect() };
    let mut removals = 0;
    for op in x {
        let before = model.clone();
        // What is removed, and how the removed ones must relate to the others
        let mut check: Option<(Vec<NodeID>, usize, Option<bool>)> = None;
        match op {
            ListOp::Add(l) => {
                nodes.add_new(ids(l));
                for i in ids(l) {
                    model.entry(i).or_insert(0);
                }
            }
            ListOp::Remove(l) => {
                nodes.remove(&ids(l).into());
                for i in ids(l) {
                    model.remove(&i);
                }
            }
            ListOp::RemoveMissing(l) => {
                let l = ids(l);
                let r = nodes.remove_missing(&l.clone().into());
                let want = before.keys().filter(|k| !l.contains(k)).count();
                ensure!(r.0.iter().all(|i| !l.contains(i)), "removed one that isn't missing");
                check = Some((r.0, want, None));
            }
            ListOp::OldestN(n) => {
                let r = nodes.remove_oldest_n(*n as usize);
                check = Some((r.0, before.len().min(*n as usize), Some(true)));
            }
            ListOp::NewestN(n) => {
                let r = nodes.remove_newest_n(*n as usize);
                check = Some((r.0, before.len().min(*n as usize), Some(false)));
            }
            ListOp::KeepNewest(n) => {
                let r = nodes.keep_newest_n(*n as usize);
                check = Some((r.0, before.len().saturating_sub(*n as usize), Some(true)));
            }
            ListOp::KeepOldest(n) => {
                let r = nodes.keep_oldest_n(*n as usize);
                check = Some((r.0, before.len().saturating_sub(*n as usize), Some(false)));
            }
            ListOp::OldestTicks(t) => {
                let want = before.values().filter(|a| **a >= *t as u32).count();
                ensure_eq!(nodes.count_expired(*t as u32), want, "number of expired nodes");
                let old: BTreeSet<NodeID> = nodes.oldest_ticks(*t as u32).0.into_iter().collect();
                let r = nodes.remove_oldest_ticks(*t as u32);
                ensure_eq!(
                    old,
                    r.0.iter().cloned().collect::<BTreeSet<_>>(),
                    "removed nodes and old nodes"
                );
                ensure!(
                    r.0.iter().all(|i| before[i] >= *t as u32),
                    "removed one that isn't old enough"
                );
                check = Some((r.0, want, Some(true)));
            }
            ListOp::Tick(k) => {
                for _ in 0..*k {
                    nodes.tick();
                }
                for a in model.values_mut() {
                    *a += *k as u32;
                }
            }
        }
        if let Some((r, want, oldest)) = check {
            ensure_eq!(r.len(), want, "number of removed nodes in {op:?}");
            for i in &r {
                ensure!(model.remove(i).is_some(), "{i} is removed twice or wasn't there");
                removals += 1;
            }
            for a in r.iter().map(|i| before[i]) {
                for b in model.values() {
                    match oldest {
                        Some(true) => ensure!(a >= *b, "{op:?} removes age {a} and keeps {b}"),
                        Some(false) => ensure!(a <= *b, "{op:?} removes age {a} and keeps {b}"),
                        None => {}
                    }
                }
            }
        }
        let mut have: Vec<(NodeID, u32)> = nodes.0.iter().map(|n| (n.id, n.ticks)).collect();
        have.sort();
        let want: Vec<(NodeID, u32)> = model.clone().into_iter().collect();
        ensure_eq!(have, want, "nodes and their ages after {op:?}");
        for rising in [true, false] {
            let s: Vec<NodeTime> = nodes.sorted(rising).0;
            ensure!(
                s.len() == want.len()
                    && s.windows(2).all(|w| if rising {
                        w[0].ticks <= w[1].ticks
                    } else {
                        w[0].ticks >= w[1].ticks
                    }),
                "sorted nodes: {s:?}"
            );
        }
        for i in 0..12 {
            ensure_eq!(nodes.contains(&id(i)), model.contains_key(&id(i)), "contains {i}");
        }
    }
    c.nontrivial(removals > 0 && !model.is_empty());
    Ok(())
}

pub fn run_random(ctx: &mut Ctx) {
    ctx.assume("the network below is simulated by its events, which may come in any order");
    ctx.sub(
        Spec {
            name: "connections",
            rule: "histories of lists, connections, disconnections, answers, messages and seconds; non-trivial: connections were asked for and are there, and messages were passed",
            quick: 20_000,
            thorough: 100_000,
            max_s: 60,
        },
        vec![],
        strat,
        run,
    );
    ctx.sub(
        Spec {
            name: "list",
            rule: "operations on the list of nodes with their ages; non-trivial: some nodes were removed, and some are left",
            quick: 200_000,
            thorough: 2_000_000,
            max_s: 15,
        },
        vec![],
        list_strat,
        list_run,
    );
}
