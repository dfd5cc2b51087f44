//! C17: several nodes with the real network stack - network, router, connections and signalling
//! server - on top of simulated WebRTC connections and WebSockets.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::broker::Broker;
use flarch::nodeids::NodeID;
use flarch::web_rtc::messages::{
    ConnectionStateMap, DataChannelState, PeerInfo, PeerMessage, WebRTCInput, WebRTCOutput,
    WebRTCSpawner,
};
use flarch::web_rtc::websocket::{
    BrokerWSClient, WSClientIn, WSClientOut, WSServerIn, WSServerOut,
};
use flarch::web_rtc::{BrokerWebRTCConn, WebRTCConn};
use flmodules::network::broker::{Network, NetworkIn, NetworkOut, MODULE_NAME};
use flmodules::network::signal::{
    BrokerSignal, SignalConfig, SignalIn, SignalOut, SignalServer, WSSignalMessageFromNode,
};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::router::broker::{BrokerRouter, RouterNetwork};
use flmodules::router::messages::{NetworkWrapper, RouterIn, RouterOut};
use flmodules::timer::{Timer, TimerMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex, OnceLock};
use tokio::sync::mpsc::UnboundedReceiver;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect(u8, u8),
    Disconnect(u8, u8),
    Send(u8, u8, bool),
    /// Delivers one of the pending things
    Step(u8),
    /// Delivers all pending things, with a seed for the order
    Flush(u32),
    /// A WebRTC connection breaks
    Break(u8),
    Ice(u8),
    State(u8),
    Tick(u8),
    /// The connection to the signalling server breaks, and is set up again
    Signal(u8),
    /// A node sends a strange setup message to another one
    Odd(u8, u8, u8, bool),
    Garbage(u8, u8),
    List(u8),
    /// A node sends an unusual message to another one
    Strange(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    nodes: u8,
    /// Whether all nodes are registered before the operations
    ready: bool,
    /// Each one with whether everything is processed before the next one
    ops: Vec<(Op, bool)>,
    seed: u32,
}

fn strat(gentle: bool) -> BoxedStrategy<In> {
    let b = any::<u8>;
    let g = if gentle { 0 } else { 1 };
    let ops = vec![
        (3, (b(), b()).prop_map(|(x, y)| Op::Connect(x, y)).boxed()),
        (2 * g, (b(), b()).prop_map(|(x, y)| Op::Disconnect(x, y)).boxed()),
        (8, (b(), b(), any::<bool>()).prop_map(|(x, y, r)| Op::Send(x, y, r)).boxed()),
        (10, b().prop_map(Op::Step).boxed()),
        (4, any::<u32>().prop_map(Op::Flush).boxed()),
        (2 * g, b().prop_map(Op::Break).boxed()),
        (2, b().prop_map(Op::Ice).boxed()),
        (2, b().prop_map(Op::State).boxed()),
        (1, (1u8..3).prop_map(Op::Tick).boxed()),
        (2 * g, (10u8..70).prop_map(Op::Tick).boxed()),
        (g, b().prop_map(Op::Signal).boxed()),
        (2 * g, (b(), b(), b(), any::<bool>()).prop_map(|(x, y, k, o)| Op::Odd(x, y, k, o)).boxed()),
        (1, (b(), b()).prop_map(|(n, k)| Op::Garbage(n, k)).boxed()),
        (1, b().prop_map(Op::List).boxed()),
        (g, (b(), b(), b()).prop_map(|(x, y, k)| Op::Strange(x, y, k)).boxed()),
    ];
    let op = proptest::strategy::Union::new_weighted(
        ops.into_iter().filter(|o| o.0 > 0).collect(),
    );
    (
        2u8..5,
        prop::bool::weighted(if gentle { 1.0 } else { 0.8 }),
        prop::collection::vec((op, prop::bool::weighted(0.7)), 1..40),
        any::<u32>(),
    )
        .prop_map(|(nodes, ready, ops, seed)| In { nodes, ready, ops, seed })
        .boxed()
}

type Rtc = Broker<WebRTCInput, WebRTCOutput>;

/// What a WebRTC connection is set up with
#[derive(Clone, Copy, PartialEq, Debug)]
enum Setup {
    New,
    Offered,
    Answered(usize, u32),
    /// The answer or offer is for another one, so it will never connect
    Lost,
}

/// A simulated WebRTC connection of one node: does the same as the one in libc, but all things
/// which come from outside are steps of the simulation.
struct Ep {
    rtc: Rtc,
    input: UnboundedReceiver<WebRTCInput>,
    owner: usize,
    /// Changes with every reset
    gen: u32,
    dir: Option<bool>,
    setup: Setup,
    open: bool,
    /// The node above was told that it's open
    told: bool,
    /// The connection broke
    gone: bool,
    queue: Vec<String>,
    wire: VecDeque<String>,
}

struct Node {
    id: NodeID,
    net: Network,
    router: BrokerRouter,
    rtc: BrokerWebRTCConn,
    timer: Timer,
    ws: BrokerWSClient,
    ws_in: UnboundedReceiver<WSClientIn>,
    out: UnboundedReceiver<NetworkOut>,
    router_out: UnboundedReceiver<RouterOut>,
    index: usize,
    up: VecDeque<String>,
    down: VecDeque<String>,
    /// What was reported
    connected: BTreeSet<NodeID>,
    router_connected: BTreeSet<NodeID>,
    router_ids: Option<Vec<NodeID>>,
    router_infos: Option<Vec<NodeInfo>>,
    listed: Option<Vec<NodeInfo>>,
    received: BTreeMap<(NodeID, NetworkWrapper2), usize>,
    router_received: BTreeMap<(NodeID, NetworkWrapper2), usize>,
    lists: usize,
}

type NetworkWrapper2 = (String, String);

fn flat(w: &NetworkWrapper) -> NetworkWrapper2 {
    (w.module.clone(), w.msg.clone())
}

fn configs() -> &'static Vec<NodeConfig> {
    static N: OnceLock<Vec<NodeConfig>> = OnceLock::new();
    N.get_or_init(|| (0..5).map(|_| NodeConfig::new()).collect())
}

struct Made {
    rtc: Rtc,
    input: UnboundedReceiver<WebRTCInput>,
    owner: usize,
}

struct Sim {
    nodes: Vec<Node>,
    eps: Vec<Ep>,
    made: Arc<Mutex<Vec<Made>>>,
    signal: BrokerSignal,
    signal_out: UnboundedReceiver<SignalOut>,
    next_index: usize,
    closes: Vec<(usize, u32)>,
    sent: BTreeMap<(usize, usize), Vec<NetworkWrapper>>,
    /// Pairs for which something might be lost
    lossy: BTreeSet<(usize, usize)>,
    msgs: usize,
    opened: usize,
    resets: usize,
}

/// The things which can happen next
#[derive(Debug)]
enum Pending {
    Up(usize),
    Down(usize),
    Open(usize),
    Wire(usize),
    Close(usize),
}

impl Sim {
    async fn new(n: usize) -> Self {
        let mut signal = SignalServer::new(SignalConfig {
            ttl_minutes: 100,
            system_realm: None,
            max_list_len: None,
        })
        .await
        .unwrap();
        let signal_out = signal.get_tap_out().await.unwrap().0;
        let made: Arc<Mutex<Vec<Made>>> = Arc::default();
        let mut nodes = vec![];
        for owner in 0..n {
            let m = made.clone();
            let spawner: WebRTCSpawner = Box::new(move || {
                let m = m.clone();
                Box::new(Box::pin(async move {
                    let mut rtc: Rtc = Broker::new();
                    let input = rtc.get_tap_in().await.unwrap().0;
                    m.lock().unwrap().push(Made { rtc: rtc.clone(), input, owner });
                    Ok(rtc)
                }))
            });
            let rtc = WebRTCConn::new(spawner).await.unwrap();
            let mut ws: BrokerWSClient = Broker::new();
            let ws_in = ws.get_tap_in().await.unwrap().0;
            let mut timer = Timer::simul();
            let mut net = Network::start(
                configs()[owner].clone(),
                ws.clone(),
                rtc.clone(),
                &mut timer,
            )
            .await
            .unwrap();
            let mut router = RouterNetwork::start(net.broker.clone()).await.unwrap();
            let out = net.broker.get_tap_out().await.unwrap().0;
            let router_out = router.get_tap_out().await.unwrap().0;
            nodes.push(Node {
                id: configs()[owner].info.get_id(),
                net,
                router,
                rtc,
                timer,
                ws,
                ws_in,
                out,
                router_out,
                index: 0,
                up: VecDeque::new(),
                down: VecDeque::new(),
                connected: BTreeSet::new(),
                router_connected: BTreeSet::new(),
                router_ids: None,
                router_infos: None,
                listed: None,
                received: BTreeMap::new(),
                router_received: BTreeMap::new(),
                lists: 0,
            });
        }
        Self {
            nodes,
            eps: vec![],
            made,
            signal,
            signal_out,
            next_index: 0,
            closes: vec![],
            sent: BTreeMap::new(),
            lossy: BTreeSet::new(),
            msgs: 0,
            opened: 0,
            resets: 0,
        }
    }

    fn join(&mut self, n: usize) {
        self.nodes[n].index = self.next_index;
        self.next_index += 1;
        self.nodes[n].up.clear();
        self.nodes[n].down.clear();
        let m = WSServerOut::NewConnection(self.nodes[n].index);
        self.signal.emit_msg_in(SignalIn::WSServer(m)).unwrap();
    }

    /// The WebRTC connection at the other end, if both are set up with each other.
    fn peer(&self, e: usize) -> Option<usize> {
        let Setup::Answered(p, gen) = self.eps[e].setup else {
            return None;
        };
        let q = self.eps.get(p)?;
        (q.gen == gen && q.setup == Setup::Answered(e, self.eps[e].gen)).then_some(p)
    }

    fn reset(&mut self, e: usize) {
        if self.eps[e].dir.is_none() {
            return;
        }
        if let Some(p) = self.peer(e) {
            self.closes.push((p, self.eps[p].gen));
        }
        self.resets += 1;
        let ep = &mut self.eps[e];
        ep.dir = None;
        ep.gen += 1;
        ep.setup = Setup::New;
        ep.open = false;
        ep.told = false;
        ep.gone = false;
        ep.wire.clear();
    }

    fn say(&mut self, e: usize, m: WebRTCOutput) {
        self.eps[e].rtc.emit_msg_out(m).unwrap();
    }

    fn open(&mut self, e: usize) {
        let ep = &mut self.eps[e];
        ep.open = true;
        ep.told = true;
        let q: Vec<String> = ep.queue.drain(..).collect();
        ep.wire.extend(q);
        self.opened += 1;
        self.say(e, WebRTCOutput::Connected);
    }

    fn state(&self, e: usize) -> ConnectionStateMap {
        ConnectionStateMap {
            // This happens before the channel is open
            data_connection: Some(if self.eps[e].gone {
                DataChannelState::Closed
            } else if self.peer(e).is_some() {
                DataChannelState::Open
            } else {
                DataChannelState::Connecting
            }),
            ..Default::default()
        }
    }

    /// What the WebRTC connection does
    fn rtc_in(&mut self, e: usize, m: WebRTCInput) {
        match m {
            WebRTCInput::Text(t) => {
                let ep = &mut self.eps[e];
                if ep.open {
                    ep.wire.push_back(t);
                } else {
                    ep.queue.push(t);
                }
            }
            WebRTCInput::Setup(PeerMessage::Init) => {
                self.reset(e);
                self.eps[e].dir = Some(true);
                self.eps[e].setup = Setup::Offered;
                let o = format!("{e} {}", self.eps[e].gen);
                self.say(e, WebRTCOutput::Setup(PeerMessage::Offer(o)));
            }
            WebRTCInput::Setup(PeerMessage::Offer(o)) => {
                self.reset(e);
                self.eps[e].dir = Some(false);
                let o: Vec<u32> = o.split(' ').filter_map(|s| s.parse().ok()).collect();
                if let [p, gen] = o[..] {
                    self.eps[e].setup = Setup::Answered(p as usize, gen);
                    let a = format!("{e} {} {p} {gen}", self.eps[e].gen);
                    self.say(e, WebRTCOutput::Setup(PeerMessage::Answer(a)));
                }
            }
            WebRTCInput::Setup(PeerMessage::Answer(a)) => {
                if self.eps[e].setup == Setup::Offered {
                    let a: Vec<u32> = a.split(' ').filter_map(|s| s.parse().ok()).collect();
                    if let [p, gen, own, own_gen] = a[..] {
                        // An answer to an older offer is accepted, but it doesn't work
                        self.eps[e].setup = if own as usize == e && own_gen == self.eps[e].gen {
                            Setup::Answered(p as usize, gen)
                        } else {
                            Setup::Lost
                        };
                    }
                }
            }
            WebRTCInput::Setup(PeerMessage::IceCandidate(_)) | WebRTCInput::Flush => {}
            WebRTCInput::UpdateState => {
                let s = self.state(e);
                self.say(e, WebRTCOutput::State(s));
            }
            WebRTCInput::Reset | WebRTCInput::Disconnect => self.reset(e),
        }
    }

    /// Lets all nodes do what they can without anything being delivered.
    async fn pump(&mut self) -> TestResult {
        loop {
            idle().await;
            let mut busy = false;
            for m in std::mem::take(&mut *self.made.lock().unwrap()) {
                self.eps.push(Ep {
                    rtc: m.rtc,
                    input: m.input,
                    owner: m.owner,
                    gen: 0,
                    dir: None,
                    setup: Setup::New,
                    open: false,
                    told: false,
                    gone: false,
                    queue: vec![],
                    wire: VecDeque::new(),
                });
                busy = true;
            }
            for e in 0..self.eps.len() {
                while let Ok(m) = self.eps[e].input.try_recv() {
                    self.rtc_in(e, m);
                    busy = true;
                }
            }
            for n in &mut self.nodes {
                while let Ok(m) = n.ws_in.try_recv() {
                    match m {
                        WSClientIn::Message(m) => n.up.push_back(m),
                        m => return Err(format!("the WebSocket gets {m:?}")),
                    }
                    busy = true;
                }
            }
            while let Ok(m) = self.signal_out.try_recv() {
                if let SignalOut::WSServer(WSServerIn::Message(i, m)) = m {
                    if let Some(n) = self.nodes.iter_mut().find(|n| n.index == i) {
                        n.down.push_back(m);
                    }
                }
                busy = true;
            }
            for n in &mut self.nodes {
                n.events()?;
            }
            if !busy {
                break;
            }
        }
        let p = take_panics();
        ensure!(p.is_empty(), "{p:?}");
        Ok(())
    }

    fn pending(&self) -> Vec<Pending> {
        let mut v = vec![];
        for (i, n) in self.nodes.iter().enumerate() {
            if !n.up.is_empty() {
                v.push(Pending::Up(i));
            }
            if !n.down.is_empty() {
                v.push(Pending::Down(i));
            }
        }
        for (i, e) in self.eps.iter().enumerate() {
            if !e.open && !e.gone && self.peer(i).is_some() {
                v.push(Pending::Open(i));
            }
            if !e.wire.is_empty() {
                v.push(Pending::Wire(i));
            }
        }
        v.extend((0..self.closes.len()).map(Pending::Close));
        v
    }

    async fn step(&mut self, k: u32) -> Result<bool, String> {
        let mut p = self.pending();
        if p.is_empty() {
            return Ok(false);
        }
        let i = k as usize % p.len();
        match p.swap_remove(i) {
            Pending::Up(n) => {
                let m = self.nodes[n].up.pop_front().unwrap();
                let m = WSServerOut::Message(self.nodes[n].index, m);
                self.signal.emit_msg_in(SignalIn::WSServer(m)).unwrap();
            }
            Pending::Down(n) => {
                let m = self.nodes[n].down.pop_front().unwrap();
                self.nodes[n].ws.emit_msg_out(WSClientOut::Message(m)).unwrap();
            }
            Pending::Open(e) => self.open(e),
            Pending::Wire(e) => {
                let t = self.eps[e].wire.pop_front().unwrap();
                if let Some(p) = self.peer(e).filter(|p| !self.eps[*p].gone) {
                    if !self.eps[p].open && !self.eps[p].told {
                        // Like in libc, the first message can come before the channel is open
                        self.eps[p].told = true;
                        self.say(p, WebRTCOutput::Connected);
                    }
                    self.say(p, WebRTCOutput::Text(t));
                }
            }
            Pending::Close(c) => {
                let (e, gen) = self.closes.remove(c);
                if self.eps[e].gen == gen && self.eps[e].dir.is_some() {
                    self.eps[e].told = false;
                    self.eps[e].gone = true;
                    self.say(e, WebRTCOutput::Disconnected);
                }
            }
        }
        Ok(true)
    }

    async fn flush(&mut self, seed: u32) -> TestResult {
        let mut r = seed as u64 | 1 << 40;
        for _ in 0..3000 {
            self.pump().await?;
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            if !self.step((r >> 11) as u32).await? {
                return Ok(());
            }
        }
        Err("the nodes don't stop sending messages to each other".into())
    }

    /// Everything is delivered and nothing happens any more: compares what the nodes report with
    /// the real state.
    fn check(&self) -> TestResult {
        for (a, n) in self.nodes.iter().enumerate() {
            let mut open = BTreeSet::new();
            for e in 0..self.eps.len() {
                if self.eps[e].owner == a && self.eps[e].told {
                    let Some(p) = self.peer(e) else {
                        return Err(format!("simulation: {e} is open without a peer"));
                    };
                    open.insert(self.nodes[self.eps[p].owner].id);
                }
            }
            ensure_eq!(n.connected, open, "nodes which are reported as connected by node {a}");
            let watch: Vec<NodeID> = n.net.connections.borrow().clone();
            ensure_eq!(watch.len(), open.len(), "length of the list of connections of node {a}");
            ensure_eq!(
                watch.into_iter().collect::<BTreeSet<_>>(),
                open,
                "list of connections of node {a}"
            );
            ensure_eq!(n.router_connected, open, "nodes connected for the router of node {a}");
            if let Some(ids) = &n.router_ids {
                ensure_eq!(ids.len(), open.len(), "number of IDs given by the router of node {a}");
                ensure_eq!(
                    ids.iter().cloned().collect::<BTreeSet<_>>(),
                    open,
                    "IDs given by the router of node {a}"
                );
            }
            if let (Some(infos), Some(list)) = (&n.router_infos, &n.listed) {
                let mut have: Vec<NodeID> = infos.iter().map(|i| i.get_id()).collect();
                let mut want: Vec<NodeID> = list
                    .iter()
                    .map(|i| i.get_id())
                    .filter(|i| open.contains(i))
                    .collect();
                have.sort();
                want.sort();
                ensure_eq!(have, want, "informations given by the router of node {a}");
            }
        }
        Ok(())
    }

    /// No message comes twice, or changed, or at another node, and without disturbances all come.
    fn check_messages(&self, from: &BTreeMap<(usize, usize), usize>) -> TestResult {
        for (b, n) in self.nodes.iter().enumerate() {
            ensure_eq!(
                n.received, n.router_received,
                "messages given by the network and the router of node {b}"
            );
            let mut left = n.received.clone();
            for (a, o) in self.nodes.iter().enumerate() {
                let none = vec![];
                let sent = self.sent.get(&(a, b)).unwrap_or(&none);
                let start = *from.get(&(a, b)).unwrap_or(&0);
                for (i, w) in sent.iter().enumerate() {
                    let k = left.remove(&(o.id, flat(w))).unwrap_or(0);
                    ensure!(k < 2, "a message from {a} to {b} comes {k} times");
                    ensure!(
                        k == 1 || i < start || self.lossy.contains(&(a, b)),
                        "message {i} of {} from {a} to {b} is lost",
                        sent.len()
                    );
                }
            }
            if let Some(l) = left.keys().next() {
                return Err(format!("node {b} got a message which nobody sent: {l:?}"));
            }
        }
        Ok(())
    }

    fn send(&mut self, a: usize, b: usize, router: bool) {
        let i = self.msgs;
        self.msgs += 1;
        let w = NetworkWrapper {
            module: ["Gossip", "DHTRouter", MODULE_NAME][i % 3].into(),
            msg: match i % 4 {
                0 => format!("message {i}"),
                1 => format!("{i}: \"é\n {{"),
                2 => format!("{i} {}", "x".repeat(40000)),
                _ => format!("---\n- {i}\n"),
            },
        };
        self.sent.entry((a, b)).or_default().push(w.clone());
        let id = self.nodes[b].id;
        if router {
            self.nodes[a]
                .router
                .emit_msg_in(RouterIn::NetworkWrapperToNetwork(id, w))
                .unwrap();
        } else {
            self.nodes[a]
                .net
                .broker
                .emit_msg_in(NetworkIn::MessageToNode(id, w))
                .unwrap();
        }
    }

    fn lossy(&mut self, a: usize, b: usize) {
        self.lossy.insert((a, b));
        self.lossy.insert((b, a));
    }
}

impl Node {
    /// Reads what the network and the router report
    fn events(&mut self) -> TestResult {
        while let Ok(m) = self.out.try_recv() {
            match m {
                NetworkOut::Connected(id) => {
                    ensure!(self.connected.insert(id), "a connection is reported twice");
                }
                NetworkOut::Disconnected(id) => {
                    ensure!(
                        self.connected.remove(&id),
                        "a disconnection of a node which isn't connected is reported"
                    );
                }
                NetworkOut::MessageFromNode(id, w) => {
                    *self.received.entry((id, flat(&w))).or_default() += 1;
                }
                NetworkOut::NodeListFromWS(l) => {
                    self.lists += 1;
                    self.listed = Some(l);
                }
                _ => {}
            }
        }
        while let Ok(m) = self.router_out.try_recv() {
            match m {
                RouterOut::Connected(id) => ensure!(
                    self.router_connected.insert(id),
                    "the router reports a connection twice"
                ),
                RouterOut::Disconnected(id) => ensure!(
                    self.router_connected.remove(&id),
                    "the router reports a disconnection of a node which isn't connected"
                ),
                RouterOut::NetworkWrapperFromNetwork(id, w) => {
                    *self.router_received.entry((id, flat(&w))).or_default() += 1;
                }
                RouterOut::NodeIDsConnected(l) => self.router_ids = Some(l.0),
                RouterOut::NodeInfosConnected(l) => self.router_infos = Some(l),
                _ => {}
            }
        }
        Ok(())
    }

    fn tick(&mut self) {
        self.timer.broker.emit_msg_out(TimerMessage::Second).unwrap();
    }
}

const GARBAGE: [&str; 10] = [
    "",
    "{",
    "null",
    "\"ListIDsReply\"",
    "{\"ListIDsReply\":[{\"NodeInfoV1\":{}}]}",
    "{\"ListIDsReply\":[{}]}",
    "{\"PeerSetup\":{}}",
    "{\"Challenge\":[3,\"00\"]}",
    "{\"SystemConfig\":{\"system_realm\":\"x\"}}",
    "{\"Error\":5}",
];

const STRANGE: [&str; 7] = [
    "",
    "[",
    "module: Network\nmsg: \"SignalIn: Connected\"",
    "module: Network\nmsg: \"SignalIn:\\n  Message: x\"",
    "module: Network\nmsg: \"SignalOut: Disconnect\"",
    "module: Network\nmsg: \"SignalOut:\\n  Message: x\"",
    "- a\n- b: {}",
];

async fn run_ops(x: &In, s: &mut Sim, gentle: bool, c: &mut Case) -> TestResult {
    let n = s.nodes.len();
    for i in 0..n {
        s.join(i);
        if x.ready {
            s.flush(x.seed).await?;
        } else {
            s.pump().await?;
        }
    }
    if !x.ready {
        for a in 0..n {
            for b in 0..n {
                s.lossy(a, b);
            }
        }
    }
    for (op, settle) in &x.ops {
        let pair = |a: u8, b: u8| {
            let a = a as usize % n;
            (a, (a + 1 + b as usize % (n - 1)) % n)
        };
        match op {
            Op::Connect(a, b) => {
                let (a, b) = pair(*a, *b);
                let id = s.nodes[b].id;
                s.nodes[a].net.broker.emit_msg_in(NetworkIn::Connect(id)).unwrap();
            }
            Op::Disconnect(a, b) => {
                let (a, b) = pair(*a, *b);
                let id = s.nodes[b].id;
                s.lossy(a, b);
                s.nodes[a].net.broker.emit_msg_in(NetworkIn::Disconnect(id)).unwrap();
            }
            Op::Send(a, b, router) => {
                let (a, b) = pair(*a, *b);
                s.send(a, b, *router);
            }
            Op::Step(k) => {
                s.step(*k as u32).await?;
            }
            Op::Flush(seed) => {
                s.flush(*seed).await?;
                s.check()?;
            }
            Op::Break(k) => {
                let open: Vec<usize> = (0..s.eps.len()).filter(|e| s.peer(*e).is_some()).collect();
                if !open.is_empty() {
                    let e = open[*k as usize % open.len()];
                    let p = s.peer(e).unwrap();
                    let (a, b) = (s.eps[e].owner, s.eps[p].owner);
                    s.lossy(a, b);
                    for i in [e, p] {
                        let gen = s.eps[i].gen;
                        s.closes.push((i, gen));
                        s.eps[i].gone = true;
                        // Nothing gets through any more
                        s.eps[i].wire.clear();
                    }
                }
            }
            Op::Ice(k) => {
                let up: Vec<usize> =
                    (0..s.eps.len()).filter(|e| s.eps[*e].dir.is_some()).collect();
                if !up.is_empty() {
                    let e = up[*k as usize % up.len()];
                    let m = PeerMessage::IceCandidate(format!("candidate:{k}"));
                    s.say(e, WebRTCOutput::Setup(m));
                }
            }
            Op::State(k) => {
                let up: Vec<usize> =
                    (0..s.eps.len()).filter(|e| s.eps[*e].dir.is_some()).collect();
                if !up.is_empty() {
                    let e = up[*k as usize % up.len()];
                    s.rtc_in(e, WebRTCInput::UpdateState);
                }
            }
            Op::Tick(k) => {
                if *k >= 10 {
                    // Nothing takes that long
                    s.flush(*k as u32).await?;
                }
                let lists: Vec<usize> = s.nodes.iter().map(|n| n.lists).collect();
                for _ in 0..*k {
                    for n in &mut s.nodes {
                        n.tick();
                    }
                    s.pump().await?;
                }
                if *k >= 60 && x.ready {
                    s.flush(*k as u32).await?;
                    for (i, n) in s.nodes.iter().enumerate() {
                        ensure!(
                            n.lists > lists[i],
                            "node {i} didn't ask for a list within a minute"
                        );
                    }
                }
            }
            Op::Signal(a) => {
                let a = *a as usize % n;
                for b in 0..n {
                    s.lossy(a, b);
                }
                let m = WSServerOut::Disconnection(s.nodes[a].index);
                s.signal.emit_msg_in(SignalIn::WSServer(m)).unwrap();
                s.join(a);
            }
            Op::Odd(a, b, k, other) => {
                let (a, b) = pair(*a, *b);
                s.lossy(a, b);
                let (mut id_init, mut id_follow) = (s.nodes[a].id, s.nodes[b].id);
                if *other {
                    (id_init, id_follow) = (id_follow, id_init);
                }
                let message = match k % 5 {
                    0 => PeerMessage::Init,
                    1 => PeerMessage::Offer("garbage".into()),
                    2 => PeerMessage::Answer("garbage".into()),
                    3 => PeerMessage::Answer("9 9 9 9".into()),
                    _ => PeerMessage::IceCandidate("garbage".into()),
                };
                let m = WSSignalMessageFromNode::PeerSetup(PeerInfo { id_init, id_follow, message });
                s.nodes[a].up.push_back(serde_json::to_string(&m).unwrap());
            }
            Op::Garbage(a, k) => {
                let a = *a as usize % n;
                let m = match k % 12 {
                    10 => WSClientOut::Error("error".into()),
                    11 => WSClientOut::Connected,
                    g => WSClientOut::Message(GARBAGE[g as usize].into()),
                };
                s.nodes[a].ws.emit_msg_out(m).unwrap();
            }
            Op::List(a) => {
                let a = *a as usize % n;
                s.nodes[a].net.broker.emit_msg_in(NetworkIn::WSUpdateListRequest).unwrap();
            }
            Op::Strange(a, b, k) => {
                let (a, b) = pair(*a, *b);
                let e = (0..s.eps.len()).find(|e| {
                    s.eps[*e].open
                        && s.eps[*e].owner == a
                        && s.peer(*e).map(|p| s.eps[p].owner) == Some(b)
                });
                if let Some(e) = e {
                    let t = STRANGE[*k as usize % STRANGE.len()];
                    let p = serde_json::json!({ "data": t }).to_string();
                    s.eps[e].wire.push_back(p);
                }
            }
        }
        if *settle {
            s.pump().await?;
        }
    }
    s.flush(x.seed).await?;
    s.check()?;
    s.check_messages(&BTreeMap::new())?;
    let before = s.resets;
    c.label_if(before > 0, "connections reset");
    c.nontrivial(s.opened > 1 && s.msgs > 1);
    c.count("messages", s.msgs as u64);

    // In the end, everybody can talk to everybody
    if !gentle {
        for _ in 0..70 {
            for n in &mut s.nodes {
                n.tick();
            }
        }
        s.flush(x.seed).await?;
        s.check()?;
        let from: BTreeMap<(usize, usize), usize> =
            s.sent.iter().map(|(k, v)| (*k, v.len())).collect();
        s.lossy.clear();
        for a in 0..n {
            for b in 0..n {
                if a != b {
                    s.send(a, b, false);
                    if x.seed & 1 == 0 {
                        s.send(a, b, true);
                    }
                    if x.seed & 2 == 0 {
                        s.pump().await?;
                    }
                }
            }
        }
        s.flush(x.seed).await?;
        s.check()?;
        s.check_messages(&from)
            .map_err(|e| format!("after everything calmed down, {e}"))?;
        for (a, n) in s.nodes.iter().enumerate() {
            ensure_eq!(n.connected.len(), s.nodes.len() - 1, "number of nodes connected to {a}");
        }
    }
    Ok(())
}

fn run(x: &In, gentle: bool, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on(async {
        let mut s = Sim::new(x.nodes as usize).await;
        let r = run_ops(x, &mut s, gentle, c).await;
        for n in &mut s.nodes {
            unlink(&mut n.timer.broker).await;
            unlink(&mut n.ws).await;
            unlink(&mut n.rtc).await;
            unlink(&mut n.net.broker).await;
            unlink(&mut n.router).await;
        }
        for e in &mut s.eps {
            unlink(&mut e.rtc).await;
        }
        unlink(&mut s.signal).await;
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

pub fn run_stack(ctx: &mut Ctx) {
    ctx.assume("the simulated WebRTC connections do the same as those of the webrtc library");
    ctx.sub(
        Spec {
            name: "calm",
            rule: "2 to 4 nodes which connect and send messages in any order of the events, without failures; non-trivial: at least two channels opened and two messages were sent",
            quick: 12_000,
            thorough: 400_000,
            max_s: 35,
        },
        vec![],
        || strat(true),
        |x, c| run(x, true, c),
    );
    ctx.sub(
        Spec {
            name: "storm",
            rule: "the same with disconnections, broken connections, lost signalling, hostile setup messages and garbage; non-trivial: at least two channels opened and two messages were sent",
            quick: 12_000,
            thorough: 400_000,
            max_s: 40,
        },
        vec![],
        || strat(false),
        |x, c| run(x, false, c),
    );
}
