//! C23: whole nodes with all their modules, in a simulated network.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::props::netsim::MemDs;
use crate::{ensure, ensure_eq};
use flarch::data_storage::DataStorage;
use flarch::nodeids::NodeID;
use flcrypto::access::Condition;
use flcrypto::signer::{SignerTrait, VerifierTrait};
use flmodules::dht_storage::realm_view::RealmViewBuilder;
use flmodules::flo::realm::RealmID;
use flmodules::network::broker::{BrokerNetwork, NetworkIn, NetworkOut};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::{BrokerTimer, TimerMessage};
use flmodules::Modules;
use flnode::node::Node;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Chat(u8, String),
    Realm(u8),
    /// Without any warning
    Kill(u8),
    /// With a new name
    Start(u8, Option<u8>),
    /// These two cannot talk with each other
    Block(u8, u8),
    Unblock(u8, u8),
    Ticks(u8),
    List(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    n: u8,
    ops: Vec<Op>,
    order: Vec<u8>,
    /// Nodes which only start later
    #[serde(default)]
    late: u8,
    /// Pairs of nodes which cannot talk with each other at the beginning
    #[serde(default)]
    cut: u16,
}

fn strat() -> BoxedStrategy<In> {
    let text = prop_oneof![
        4 => "[ -~]{0,12}",
        1 => "\\PC{0,8}",
        1 => prop::sample::select(vec!["", "- a: b", "'", "\n\n", "\u{85}x", "null", "&a *a"]).prop_map(|s| s.to_string()),
    ];
    let op = prop_oneof![
        4 => (any::<u8>(), text).prop_map(|(i, t)| Op::Chat(i, t)),
        1 => any::<u8>().prop_map(Op::Realm),
        2 => any::<u8>().prop_map(Op::Kill),
        3 => (any::<u8>(), prop::option::weighted(0.3, 0u8..5)).prop_map(|(i, n)| Op::Start(i, n)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Block(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Unblock(a, b)),
        4 => (1u8..30).prop_map(Op::Ticks),
        1 => any::<u8>().prop_map(Op::List),
    ];
    (
        1u8..6,
        prop::collection::vec(op, 0..25),
        prop::collection::vec(any::<u8>(), 1..20),
        prop_oneof![2 => Just(0), 1 => any::<u8>()],
        prop_oneof![1 => Just(0), 2 => any::<u16>()],
    )
        .prop_map(|(n, ops, order, late, cut)| In { n, ops, order, late, cut })
        .boxed()
}

struct Live {
    node: Node,
    net: BrokerNetwork,
    timer: BrokerTimer,
    tap: UnboundedReceiver<NetworkIn>,
}

struct World {
    ds: Vec<MemDs>,
    ids: Vec<NodeID>,
    infos: Vec<NodeInfo>,
    live: Vec<Option<Live>>,
    links: BTreeSet<(usize, usize)>,
    blocked: BTreeSet<(usize, usize)>,
    queues: BTreeMap<(usize, usize), VecDeque<NetworkWrapper>>,
    order: Vec<u8>,
    picks: usize,
    ticks: usize,
    /// What each node was given as its last list
    listed: Vec<Option<BTreeSet<NodeID>>>,
    list_names: Vec<BTreeMap<NodeID, String>>,
    chats: BTreeSet<(NodeID, String)>,
    realms: BTreeSet<RealmID>,
}

fn pair(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}

/// What a node tells the application
#[derive(Debug, PartialEq)]
struct View {
    chats: BTreeSet<(NodeID, String)>,
    infos: BTreeMap<NodeID, (String, Modules2)>,
    realms: BTreeSet<RealmID>,
    connected: BTreeSet<NodeID>,
    online: BTreeSet<NodeID>,
}

type Modules2 = u32;

impl World {
    fn new(x: &In) -> Self {
        let n = x.n.clamp(1, 5) as usize;
        Self {
            ds: (0..n).map(|_| MemDs::default()).collect(),
            ids: vec![NodeID::zero(); n],
            infos: vec![],
            live: (0..n).map(|_| None).collect(),
            links: BTreeSet::new(),
            blocked: BTreeSet::new(),
            queues: BTreeMap::new(),
            order: x.order.clone(),
            picks: 0,
            ticks: 0,
            listed: vec![None; n],
            list_names: vec![BTreeMap::new(); n],
            chats: BTreeSet::new(),
            realms: BTreeSet::new(),
        }
    }

    fn out(&mut self, i: usize, m: NetworkOut) {
        if let Some(l) = self.live[i].as_mut() {
            l.net.emit_msg_out(m).unwrap();
        }
    }

    fn list(&mut self, i: usize) {
        let infos: Vec<NodeInfo> = (0..self.live.len())
            .filter(|j| *j != i && self.live[*j].is_some())
            .map(|j| self.live[j].as_ref().unwrap().node.node_config.info.clone())
            .collect();
        if self.live[i].is_some() {
            self.listed[i] = Some(infos.iter().map(|n| n.get_id()).collect());
            self.list_names[i].extend(infos.iter().map(|n| (n.get_id(), n.name.clone())));
        }
        self.out(i, NetworkOut::NodeListFromWS(infos));
    }

    fn link(&mut self, a: usize, b: usize) -> bool {
        if a == b || self.live[a].is_none() || self.live[b].is_none() || self.blocked.contains(&pair(a, b)) {
            return false;
        }
        if self.links.insert(pair(a, b)) {
            self.out(a, NetworkOut::Connected(self.ids[b]));
            self.out(b, NetworkOut::Connected(self.ids[a]));
        }
        true
    }

    fn unlink(&mut self, a: usize, b: usize) {
        self.queues.remove(&(a, b));
        self.queues.remove(&(b, a));
        if self.links.remove(&pair(a, b)) {
            self.out(a, NetworkOut::Disconnected(self.ids[b]));
            self.out(b, NetworkOut::Disconnected(self.ids[a]));
        }
    }

    /// Lets the messages flow until nothing happens anymore.
    async fn flow(&mut self) -> TestResult {
        for _ in 0..2000 {
            idle().await;
            let mut busy = false;
            for i in 0..self.live.len() {
                let mut msgs = vec![];
                if let Some(l) = self.live[i].as_mut() {
                    while let Ok(m) = l.tap.try_recv() {
                        msgs.push(m);
                    }
                }
                for m in msgs {
                    busy = true;
                    let at = |id: NodeID| self.ids.iter().position(|o| *o == id);
                    match m {
                        NetworkIn::MessageToNode(id, nw) => {
                            if let Some(j) = at(id) {
                                if self.link(i, j) {
                                    self.queues.entry((i, j)).or_default().push_back(nw);
                                }
                            }
                        }
                        NetworkIn::Connect(id) => {
                            if let Some(j) = at(id) {
                                self.link(i, j);
                            }
                        }
                        NetworkIn::Disconnect(id) => {
                            if let Some(j) = at(id) {
                                self.unlink(i, j);
                            }
                        }
                        NetworkIn::WSUpdateListRequest => self.list(i),
                        NetworkIn::StatsToWS(_) => {}
                    }
                }
            }
            let full: Vec<(usize, usize)> = self.queues.iter().filter(|(_, q)| !q.is_empty()).map(|(k, _)| *k).collect();
            if let Some((i, j)) = full.get(self.order[self.picks % self.order.len()] as usize % full.len().max(1)) {
                self.picks += 1;
                busy = true;
                // All that is waiting, as there are many of them
                for nw in std::mem::take(self.queues.get_mut(&(*i, *j)).unwrap()) {
                    self.out(*j, NetworkOut::MessageFromNode(self.ids[*i], nw));
                }
            }
            if !busy {
                return Ok(());
            }
        }
        Err("the nodes never stop sending messages".into())
    }

    async fn start(&mut self, i: usize, name: Option<u8>) -> TestResult {
        if self.live[i].is_some() {
            return Ok(());
        }
        let mut cfg = Node::get_config(self.ds[i].clone_box()).map_err(|e| format!("get_config: {e}"))?;
        let again = Node::get_config(self.ds[i].clone_box()).map_err(|e| format!("get_config: {e}"))?;
        ensure!(cfg.keypair == again.keypair, "reading the configuration twice gives two identities");
        let id = cfg.info.get_id();
        if self.ids[i] == NodeID::zero() {
            self.ids[i] = id;
        }
        ensure_eq!(id, self.ids[i], "identity of the node after a restart");
        if let Some(n) = name {
            cfg.info.name = format!("name {n}");
        }
        let net = BrokerNetwork::new();
        let timer = BrokerTimer::new();
        let tap = net.clone().get_tap_in().await.unwrap().0;
        // Two infos of the same millisecond would be as new as each other.
        std::thread::sleep(Duration::from_millis(2));
        let node = Node::start(Box::new(self.ds[i].clone()), cfg, net.clone(), timer.clone())
            .await
            .map_err(|e| format!("starting a node: {e}"))?;
        self.live[i] = Some(Live { node, net, timer, tap });
        idle().await;
        Ok(())
    }

    async fn kill(&mut self, i: usize) {
        let others: Vec<usize> = (0..self.live.len()).collect();
        if let Some(mut l) = self.live[i].take() {
            for j in others {
                self.unlink(i, j);
            }
            unlink(&mut l.net).await;
            unlink(&mut l.timer).await;
            let n = &mut l.node;
            unlink(&mut n.network_io).await;
            if let Some(r) = n.random.as_mut() {
                unlink(&mut r.broker).await;
            }
            if let Some(r) = n.gossip.as_mut() {
                unlink(&mut r.broker).await;
            }
            if let Some(r) = n.dht_router.as_mut() {
                unlink(&mut r.broker).await;
            }
            if let Some(r) = n.dht_storage.as_mut() {
                unlink(&mut r.broker).await;
            }
            if let Some(r) = n.webproxy.as_mut() {
                unlink(&mut r.web_proxy).await;
            }
        }
        self.listed[i] = None;
        self.list_names[i].clear();
    }

    async fn view(&mut self, i: usize) -> Result<View, String> {
        let node = &mut self.live[i].as_mut().unwrap().node;
        let chats: Vec<_> = node.gossip.as_ref().unwrap().chat_events().iter().map(|e| (e.src, e.msg.clone())).collect();
        let set: BTreeSet<_> = chats.iter().cloned().collect();
        ensure!(set.len() == chats.len(), "a message is there twice");
        let infos = node.nodes_info_all().map_err(|e| e.to_string())?;
        let mut realms = node.dht_storage.as_mut().unwrap().get_realm_ids().await.map_err(|e| format!("get_realm_ids: {e}"))?;
        realms.sort();
        let ids = |v: Vec<NodeInfo>| -> Result<BTreeSet<NodeID>, String> {
            let s: BTreeSet<NodeID> = v.iter().map(|n| n.get_id()).collect();
            ensure!(s.len() == v.len(), "a node is listed twice");
            Ok(s)
        };
        Ok(View {
            chats: set,
            infos: infos.iter().map(|(k, v)| (*k, (v.name.clone(), v.modules.bits()))).collect(),
            realms: realms.into_iter().collect(),
            connected: ids(node.nodes_connected().map_err(|e| e.to_string())?)?,
            online: ids(node.nodes_online().map_err(|e| e.to_string())?)?,
        })
    }

    async fn tick(&mut self) -> TestResult {
        tokio::time::sleep(Duration::from_secs(1)).await;
        self.ticks += 1;
        for l in self.live.iter_mut().flatten() {
            l.timer.emit_msg_out(TimerMessage::Second).unwrap();
            if self.ticks % 60 == 0 {
                l.timer.emit_msg_out(TimerMessage::Minute).unwrap();
            }
        }
        self.flow().await
    }

    /// What must hold at any time
    fn check_stat(&mut self, i: usize) -> TestResult {
        let want: BTreeSet<NodeID> = (0..self.ids.len()).filter(|j| self.links.contains(&pair(i, *j))).map(|j| self.ids[j]).collect();
        let listed = self.listed[i].clone();
        let Some(l) = self.live[i].as_mut() else {
            return Ok(());
        };
        let s = l.node.stat.as_ref().unwrap().borrow().clone();
        ensure!(s.connected.len() == want.len(), "the statistics list {} connections instead of {}", s.connected.len(), want.len());
        ensure_eq!(s.connected.iter().copied().collect::<BTreeSet<_>>(), want, "connected nodes in the statistics");
        ensure_eq!(
            s.online.iter().copied().collect::<BTreeSet<_>>(),
            listed.unwrap_or_default(),
            "online nodes in the statistics"
        );
        ensure!(
            s.node_infos_connected().iter().all(|n| want.contains(&n.get_id())),
            "a node which isn't connected is shown as connected"
        );
        for (id, name) in &self.list_names[i] {
            let shown = s.node_infos.get(id).map(|n| &n.name);
            ensure_eq!(shown, Some(name), "name in the statistics");
        }
        // What the node tells is what its modules know, which are up to a second late
        let node = &l.node;
        let infos = node.nodes_info_all().map_err(|e| e.to_string())?;
        let rnd = node.random.as_ref().unwrap().stats.borrow().clone();
        let known: BTreeSet<NodeID> = rnd.known.0.iter().copied().collect();
        let want: BTreeSet<NodeID> = rnd.connected.get_nodes().0.into_iter().collect();
        for (what, got, of) in [("connected", node.nodes_connected(), want), ("online", node.nodes_online(), known)] {
            let got: Vec<(NodeID, String)> = got.map_err(|e| e.to_string())?.iter().map(|n| (n.get_id(), n.name.clone())).collect();
            let set: BTreeMap<NodeID, String> = got.iter().cloned().collect();
            ensure!(set.len() == got.len(), "a node is shown twice as {what}");
            let of: BTreeMap<NodeID, String> = of.iter().filter_map(|id| infos.get(id).map(|n| (*id, n.name.clone()))).collect();
            ensure_eq!(set, of, "nodes shown as {what}");
        }
        // Any other list of nodes, of which only some are known
        let mut ask = vec![];
        for id in infos.keys() {
            ask.extend([NodeID::rnd(), *id]);
        }
        ask.push(NodeID::rnd());
        let got = node.nodes_info(ask.clone()).map_err(|e| e.to_string())?;
        let got: Vec<NodeID> = got.iter().map(|n| n.get_id()).collect();
        ask.retain(|id| infos.contains_key(id));
        ensure_eq!(got, ask, "infos of some known and unknown nodes");
        Ok(())
    }

    /// The reason why this node doesn't show everything yet
    async fn missing(&mut self, i: usize) -> Result<Option<String>, String> {
        let v = self.view(i).await?;
        let others: BTreeSet<NodeID> = self.ids.iter().filter(|id| **id != self.ids[i]).copied().collect();
        let linked: BTreeSet<NodeID> = (0..self.ids.len()).filter(|j| self.links.contains(&pair(i, *j))).map(|j| self.ids[j]).collect();
        for (c, s) in [
            (v.chats == self.chats, format!("{} of {} messages", v.chats.len(), self.chats.len())),
            (v.infos.keys().copied().collect::<BTreeSet<_>>() == self.ids.iter().copied().collect(), format!("the infos of {} of {} nodes", v.infos.len(), self.ids.len())),
            (v.online == others, format!("{} of {} online nodes", v.online.len(), others.len())),
            (v.connected == linked, format!("{} connected nodes instead of {}", v.connected.len(), linked.len())),
            (v.realms == self.realms, format!("{} of {} realms", v.realms.len(), self.realms.len())),
        ] {
            if !c {
                return Ok(Some(s));
            }
        }
        for (j, l) in self.live.iter().enumerate() {
            let info = &l.as_ref().unwrap().node.node_config.info;
            if v.infos[&self.ids[j]] != (info.name.clone(), info.modules.bits()) {
                return Ok(Some(format!("an old info of node {j}: {:?}", v.infos[&self.ids[j]])));
            }
        }
        Ok(None)
    }
}

async fn run_world(w: &mut World, x: &In, c: &mut Case) -> TestResult {
    let n = w.live.len();
    let mut before: Vec<Option<View>> = (0..n).map(|_| None).collect();
    let mut made = 0;
    let mut k = 0;
    for i in 0..n {
        for j in 0..i {
            if x.cut >> k & 1 == 1 {
                w.blocked.insert((j, i));
            }
            k += 1;
        }
        if x.late >> i & 1 == 0 {
            w.start(i, None).await?;
        }
    }
    for i in 0..n {
        w.list(i);
    }
    w.flow().await?;
    for (k, op) in x.ops.iter().enumerate() {
        match op {
            Op::Chat(i, t) => {
                let i = *i as usize % n;
                if let Some(l) = w.live[i].as_mut() {
                    let msg = format!("{k}{t}");
                    l.node.add_chat_message(msg.clone()).await.map_err(|e| e.to_string())?;
                    w.chats.insert((w.ids[i], msg));
                    c.count("messages", 1);
                }
            }
            Op::Realm(i) => {
                let i = *i as usize % n;
                if let Some(l) = w.live[i].as_mut().filter(|_| made < 3) {
                    made += 1;
                    let ds = l.node.dht_storage.as_ref().unwrap().clone();
                    let view = RealmViewBuilder::new(ds, format!("realm {k}"), Condition::Pass, vec![])
                        .root_http("root".into(), "".into(), None, Condition::Pass, vec![])
                        .root_tag("tags".into(), None, Condition::Pass, vec![])
                        .build()
                        .await
                        .map_err(|e| format!("creating a realm: {e}"))?;
                    w.realms.insert(view.realm.realm_id());
                    c.count("realms", 1);
                }
            }
            Op::Kill(i) => {
                let i = *i as usize % n;
                if w.live[i].is_some() {
                    idle().await;
                    before[i] = Some(w.view(i).await?);
                    w.kill(i).await;
                    c.count("kills", 1);
                }
            }
            Op::Start(i, name) => {
                let i = *i as usize % n;
                if w.live[i].is_none() {
                    w.start(i, *name).await?;
                    restarted(w, i, before[i].take()).await?;
                    for j in 0..n {
                        w.list(j);
                    }
                }
            }
            Op::Block(a, b) => {
                let (a, b) = (*a as usize % n, *b as usize % n);
                if a != b {
                    w.unlink(a, b);
                    w.blocked.insert(pair(a, b));
                }
            }
            Op::Unblock(a, b) => {
                w.blocked.remove(&pair(*a as usize % n, *b as usize % n));
            }
            Op::Ticks(t) => {
                for _ in 0..*t {
                    w.tick().await?;
                }
            }
            Op::List(i) => {
                let i = *i as usize % n;
                if let Some(l) = w.live[i].as_mut() {
                    l.node.request_list().await.map_err(|e| e.to_string())?;
                }
            }
        }
        w.flow().await?;
        for i in 0..n {
            w.check_stat(i)?;
        }
    }
    w.blocked.clear();
    for i in 0..n {
        if w.live[i].is_none() {
            w.start(i, None).await?;
            restarted(w, i, before[i].take()).await?;
        }
    }
    for i in 0..n {
        w.list(i);
    }
    w.flow().await?;
    let mut why = None;
    for t in 0..60 {
        for _ in 0..10 {
            w.tick().await?;
        }
        why = None;
        for i in 0..n {
            w.check_stat(i)?;
            if let Some(s) = w.missing(i).await? {
                why = Some(format!("node {i} has {s}"));
            }
        }
        if why.is_none() {
            c.label_if(t > 5, "late");
            break;
        }
        if t % 6 == 5 {
            for i in 0..n {
                w.list(i);
            }
        }
    }
    if let Some(s) = why {
        return Err(format!("ten minutes after everything is fine again, {s}"));
    }
    c.nontrivial(n > 1 && !w.chats.is_empty());
    Ok(())
}

/// A node which starts again shows what it showed before.
async fn restarted(w: &mut World, i: usize, before: Option<View>) -> TestResult {
    let Some(b) = before else {
        return Ok(());
    };
    let now = w.view(i).await?;
    ensure_eq!(now.chats, b.chats, "messages after a restart");
    ensure_eq!(now.realms, b.realms, "realms after a restart");
    ensure_eq!(
        now.infos.keys().collect::<Vec<_>>(),
        b.infos.keys().collect::<Vec<_>>(),
        "known nodes after a restart"
    );
    ensure!(now.connected.is_empty(), "a node which just started shows connections");
    Ok(())
}

fn run_nodes_case(x: &In, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on(async {
        let mut w = World::new(x);
        let r = run_world(&mut w, x, c).await;
        for i in 0..w.live.len() {
            w.kill(i).await;
        }
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ModIn {
    bits: u32,
    /// Names which are stored, and modules which are switched on or off
    steps: Vec<(Option<String>, Option<u32>, bool)>,
    hash: [u8; 32],
}

fn mod_strat() -> BoxedStrategy<ModIn> {
    let name = prop_oneof![3 => "[ -~]{0,20}", 1 => "\\PC{0,10}"];
    (
        0u32..256,
        prop::collection::vec((prop::option::of(name), prop::option::of(0u32..256), any::<bool>()), 1..5),
        any::<[u8; 32]>(),
    )
        .prop_map(|(bits, steps, hash)| ModIn { bits, steps, hash })
        .boxed()
}

fn run_mod_case(x: &ModIn, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on(async {
        let ds = MemDs::default();
        let get = || Node::get_config(ds.clone_box()).map_err(|e| format!("get_config: {e}"));
        let first = get()?;
        let id = first.info.get_id();
        let mut want = (first.info.name.clone(), first.info.modules);
        ensure!(want.1.contains(Modules::stable()), "a new node doesn't have all modules");
        let mut signer = None;
        for (name, bits, restart) in &x.steps {
            let mut cfg = get()?;
            ensure_eq!(cfg.info.get_id(), id, "identity of the node");
            ensure!(cfg.keypair == first.keypair, "the key of the node changes");
            ensure_eq!(cfg.info.name, want.0, "name of the node");
            ensure_eq!(cfg.info.modules.bits(), (want.1 | Modules::WEBPROXY_REQUESTS).bits(), "modules of the node");
            let sig = cfg.sign(x.hash);
            ensure!(cfg.info.verify(&x.hash, &sig), "the node's signature doesn't verify");
            if let Some(n) = name {
                cfg.info.name = n.clone();
            }
            if let Some(b) = bits {
                cfg.info.modules = Modules::from_bits_truncate(*b);
            }
            want = (cfg.info.name.clone(), cfg.info.modules);
            Node::set_config(ds.clone_box(), &cfg.encode()).map_err(|e| format!("set_config: {e}"))?;
            if *restart {
                let s = flmodules::flo::storage::CryptoStorage::new(ds.clone_box()).get_signer().verifier().get_id();
                ensure!(signer.as_ref().is_none_or(|o| *o == s), "the signer of the node changes");
                signer = Some(s);
            }
        }
        let mut cfg: NodeConfig = get()?;
        let m = Modules::from_bits_truncate(x.bits);
        cfg.info.modules = m;
        let mut w = World::new(&In { n: 1, ops: vec![], order: vec![0], late: 0, cut: 0 });
        let (net, timer) = (BrokerNetwork::new(), BrokerTimer::new());
        let tap = net.clone().get_tap_in().await.unwrap().0;
        let mut node = Node::start(ds.clone_box(), cfg, net.clone(), timer.clone()).await.map_err(|e| format!("start: {e}"))?;
        idle().await;
        let rand = m.contains(Modules::RAND);
        let gossip = rand && m.contains(Modules::GOSSIP);
        let dht = m.contains(Modules::DHT_ROUTER);
        for (name, is, want) in [
            ("RAND", node.random.is_some(), rand),
            ("GOSSIP", node.gossip.is_some(), gossip),
            ("WEBPROXY", node.webproxy.is_some(), rand && m.contains(Modules::WEBPROXY)),
            ("STAT", node.stat.is_some(), m.contains(Modules::STAT)),
            ("DHT_ROUTER", node.dht_router.is_some(), dht),
            ("DHT_STORAGE", node.dht_storage.is_some(), dht && m.contains(Modules::DHT_STORAGE)),
        ] {
            ensure!(is == want, "module {name} is running: {is}, but should: {want}");
        }
        ensure_eq!(node.add_chat_message("a".into()).await.is_ok(), gossip, "a message can be sent");
        ensure_eq!(node.nodes_info_all().is_ok(), gossip, "the known nodes are there");
        ensure_eq!(node.nodes_connected().is_ok(), gossip, "the connected nodes are there");
        ensure_eq!(node.nodes_online().is_ok(), gossip, "the online nodes are there");
        w.live[0] = Some(Live { node, net, timer, tap });
        w.ids[0] = id;
        for _ in 0..3 {
            w.list(0);
            w.tick().await?;
        }
        w.kill(0).await;
        c.nontrivial(x.steps.len() > 1);
        Ok(())
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TimerIn {
    waits: Vec<u32>,
    /// How the messages are used
    how: Vec<u8>,
}

fn timer_strat() -> BoxedStrategy<TimerIn> {
    (
        prop::collection::vec(prop_oneof![3 => 0u32..3000, 2 => 1000u32..130_000, 1 => (0u32..200).prop_map(|i| i * 1000)], 1..12),
        prop::collection::vec(0u8..6, 0..5),
    )
        .prop_map(|(waits, how)| TimerIn { waits, how })
        .boxed()
}

fn run_timer_case(x: &TimerIn, c: &mut Case) -> TestResult {
    take_panics();
    block_on(async {
        use flarch::broker::Broker;
        use flmodules::timer::Timer;
        let start = tokio::time::Instant::now();
        let mut timer = Timer::start().await.unwrap();
        let mut tap = timer.broker.get_tap_out().await.unwrap().0;
        let mut users = vec![];
        for (k, h) in x.how.iter().enumerate() {
            let mut b: Broker<usize, ()> = Broker::new();
            let t = b.get_tap_in().await.unwrap().0;
            let cl = b.clone();
            match h {
                0 => Timer::second(timer.broker.clone(), cl, k).await,
                1 => Timer::minute(timer.broker.clone(), cl, k).await,
                2 => timer.tick(cl, k, TimerMessage::Second).await,
                3 => timer.tick(cl, k, TimerMessage::Minute).await,
                4 => timer.tick_second(cl, k).await,
                _ => timer.tick_minute(cl, k).await,
            }
            .unwrap();
            users.push((b, t, h % 2 == 0, k));
        }
        let (mut s, mut m) = (0u64, 0u64);
        let mut seen = vec![0u64; users.len()];
        for w in &x.waits {
            tokio::time::sleep(Duration::from_millis(*w as u64)).await;
            idle().await;
            while let Ok(msg) = tap.try_recv() {
                match msg {
                    TimerMessage::Second => s += 1,
                    TimerMessage::Minute => {
                        m += 1;
                        ensure_eq!(s, m * 60, "seconds when a minute comes");
                    }
                }
            }
            // It may begin at once or after a second.
            let t = start.elapsed().as_millis() as u64;
            ensure!(s >= t.saturating_sub(20) / 1000 && s <= (t + 20) / 1000 + 1, "{s} seconds after {t} ms");
            ensure_eq!(m, s / 60, "minutes after {s} seconds");
            for (i, (_, t, sec, k)) in users.iter_mut().enumerate() {
                while let Ok(v) = t.try_recv() {
                    ensure_eq!(v, *k, "message of the timer");
                    seen[i] += 1;
                }
                let all = if *sec { s } else { m };
                ensure!(seen[i] == all || seen[i] + 1 == all, "{} of {all} messages arrived", seen[i]);
            }
            c.nontrivial(m > 0);
        }
        for (b, _, _, _) in users.iter_mut() {
            unlink(b).await;
        }
        unlink(&mut timer.broker).await;
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntervalIn {
    /// The start, relative to now
    start: i32,
    dur: u16,
    ticks: u8,
}

fn interval_strat() -> BoxedStrategy<IntervalIn> {
    (
        prop_oneof![3 => -3i32..3, 2 => -100_000i32..0, 3 => 0i32..100_000, 1 => Just(0)],
        1u16..10_000,
        1u8..20,
    )
        .prop_map(|(start, dur, ticks)| IntervalIn { start, dur, ticks })
        .boxed()
}

fn run_interval_case(x: &IntervalIn, c: &mut Case) -> TestResult {
    take_panics();
    block_on(async {
        use flarch::tasks::{now, Interval};
        use futures::StreamExt;
        let virt = tokio::time::Instant::now();
        let start = now() + x.start as i64;
        let mut i = Interval::new(start, Duration::from_millis(x.dur as u64));
        // The time which it took to make it, while the virtual one stands still.
        let took = now() + x.start as i64 - start;
        for k in 0..x.ticks as i64 {
            let at = tokio::time::timeout(Duration::from_secs(1_000_000), i.next())
                .await
                .map_err(|_| format!("the tick {k} never comes"))?;
            ensure_eq!(at, Some(start + k * x.dur as i64), "time of tick {k}");
            let t = virt.elapsed().as_millis() as i64;
            let min = (x.start as i64).max(0) + k * x.dur as i64;
            // A start in the past may be caught up or not.
            let lower = if x.start < 3 { 0 } else { min - took - 1 };
            ensure!(t >= lower && t <= min + 2, "tick {k} after {t} ms instead of {min}");
        }
        c.nontrivial(x.ticks > 1);
        c.label(if x.start < 0 { "past" } else { "future" });
        Ok(())
    })
}

pub fn run_nodes(ctx: &mut Ctx) {
    ctx.sub(
        Spec {
            name: "nodes",
            rule: "up to 25 messages, realms, crashes, restarts, partitions and lists of up to five nodes with all modules; non-trivial: more than one node, and a message was sent",
            quick: 1500,
            thorough: 40_000,
            max_s: 90,
        },
        vec![],
        strat,
        run_nodes_case,
    );
    ctx.sub(
        Spec {
            name: "modules",
            rule: "up to four changes of the stored configuration, and a start with any set of modules; non-trivial: more than one change",
            quick: 3000,
            thorough: 100_000,
            max_s: 30,
        },
        vec![],
        mod_strat,
        run_mod_case,
    );
    ctx.sub(
        Spec {
            name: "timer",
            rule: "up to twelve stretches of time, with up to four users of the timer; non-trivial: a minute passed",
            quick: 1500,
            thorough: 50_000,
            max_s: 20,
        },
        vec![],
        timer_strat,
        run_timer_case,
    );
    ctx.sub(
        Spec {
            name: "interval",
            rule: "a start in the past or future, a duration and up to 19 ticks; non-trivial: more than one tick",
            quick: 20_000,
            thorough: 500_000,
            max_s: 20,
        },
        vec![],
        interval_strat,
        run_interval_case,
    );
}
