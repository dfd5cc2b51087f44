//! C18: the signalling server only lists nodes which prove who they are, and passes their
//! messages to the right node.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::nodeids::{NodeID, U256};
use flarch::web_rtc::messages::{PeerInfo, PeerMessage};
use flarch::web_rtc::websocket::{WSServerIn, WSServerOut};
use flmodules::network::signal::{
    BrokerSignal, MessageAnnounce, NodeStat, SignalConfig, SignalIn, SignalOut, SignalServer,
    WSSignalMessageFromNode, WSSignalMessageToNode, SIGNAL_VERSION,
};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use tokio::sync::mpsc::UnboundedReceiver;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum How {
    Right,
    /// With the challenge of another connection, or an old one
    OtherChallenge(u8),
    /// Signed by another node's key
    OtherKey(u8),
    /// A signature which was already used
    Replay(u8),
    BadSignature(u8),
    /// A public key of a wrong length
    BadKey(u8),
    /// Signed correctly, but for something else in the message
    WrongField,
    OldInfo,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect,
    Announce(u8, u8, u8, How),
    List(u8),
    Peer(u8, u8, u8, u8),
    Stats(u8, u8),
    Timer(u8),
    Disconnect(u8),
    Garbage(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    ttl: u16,
    max: Option<u8>,
    realm: Option<u8>,
    ops: Vec<Op>,
}

const NODES: usize = 7;

fn nodes() -> &'static Vec<NodeConfig> {
    static N: OnceLock<Vec<NodeConfig>> = OnceLock::new();
    N.get_or_init(|| (0..NODES).map(|_| NodeConfig::new()).collect())
}

fn strat() -> BoxedStrategy<In> {
    let b = any::<u8>;
    let how = prop_oneof![
        12 => Just(How::Right),
        1 => b().prop_map(How::OtherChallenge),
        1 => b().prop_map(How::OtherKey),
        1 => b().prop_map(How::Replay),
        1 => b().prop_map(How::BadSignature),
        1 => b().prop_map(How::BadKey),
        1 => Just(How::WrongField),
        1 => Just(How::OldInfo),
    ];
    (
        1u16..5,
        prop::option::weighted(0.3, 0u8..5),
        prop::option::of(b()),
        prop::collection::vec(
            prop_oneof![
                6 => Just(Op::Connect),
                10 => (b(), b(), b(), how).prop_map(|(c, n, i, h)| Op::Announce(c, n, i, h)),
                4 => b().prop_map(Op::List),
                6 => (b(), b(), b(), b()).prop_map(|(c, i, f, m)| Op::Peer(c, i, f, m)),
                1 => (b(), b()).prop_map(|(c, n)| Op::Stats(c, n)),
                3 => (1u8..3).prop_map(Op::Timer),
                2 => b().prop_map(Op::Disconnect),
                1 => (b(), prop_oneof![
                    4 => "(?s).{0,40}",
                    1 => Just("\"ListIDsReply\"".to_string()),
                    1 => Just("{\"Announce\":{}}".to_string()),
                    1 => Just("{\"PeerSetup\":null}".to_string()),
                    1 => Just("[".repeat(200)),
                ]).prop_map(|(c, s)| Op::Garbage(c, s)),
            ],
            1..40,
        ),
    )
        .prop_map(|(ttl, max, realm, ops)| In { ttl, max, realm, ops })
        .boxed()
}

struct Conn {
    index: usize,
    challenge: Option<U256>,
    /// Which node it proved to be
    node: Option<NodeID>,
    ttl: Option<u16>,
    open: bool,
}

struct Server {
    broker: BrokerSignal,
    tap: UnboundedReceiver<SignalOut>,
    conns: Vec<Conn>,
    infos: BTreeMap<NodeID, NodeInfo>,
    challenges: BTreeSet<U256>,
    used: Vec<(NodeID, Vec<u8>)>,
}

fn to_node(m: &WSSignalMessageToNode) -> String {
    serde_json::to_string(m).unwrap()
}

/// An info in a form where all fields can be compared
fn flat(i: &NodeInfo) -> String {
    serde_json::to_string(i).unwrap()
}

impl Server {
    async fn ask(&mut self, m: SignalIn) -> Vec<SignalOut> {
        self.broker.emit_msg_in(m).unwrap();
        idle().await;
        let mut v = vec![];
        while let Ok(m) = self.tap.try_recv() {
            v.push(m);
        }
        v
    }

    async fn say(&mut self, index: usize, m: &WSSignalMessageFromNode) -> Vec<SignalOut> {
        self.ask(SignalIn::WSServer(WSServerOut::Message(
            index,
            serde_json::to_string(m).unwrap(),
        )))
        .await
    }

    /// The connection over which a node can be reached
    fn of(&self, id: &NodeID) -> Option<usize> {
        self.conns
            .iter()
            .find(|c| c.open && c.node.as_ref() == Some(id))
            .map(|c| c.index)
    }

    fn drop_conn(&mut self, i: usize) {
        self.conns[i].ttl = None;
        self.conns[i].challenge = None;
        if let Some(id) = self.conns[i].node.take() {
            self.infos.remove(&id);
        }
    }

    fn touch(&mut self, i: usize, ttl: u16) {
        if self.conns[i].ttl.is_some() {
            self.conns[i].ttl = Some(ttl);
        }
    }

    async fn connect(&mut self, ttl: u16) -> TestResult {
        // Like the websocket server, never use an index twice
        let index = self.conns.len();
        let out = self
            .ask(SignalIn::WSServer(WSServerOut::NewConnection(index)))
            .await;
        let [SignalOut::WSServer(WSServerIn::Message(i, m))] = &out[..] else {
            return Err(format!("a new connection gets {out:?}"));
        };
        ensure_eq!(*i, index, "who gets the challenge");
        let Ok(WSSignalMessageToNode::Challenge(v, c)) = serde_json::from_str(m) else {
            return Err(format!("a new connection gets {m}"));
        };
        ensure_eq!(v, SIGNAL_VERSION, "version");
        ensure!(self.challenges.insert(c), "the challenge {c} is used twice");
        self.conns.push(Conn {
            index,
            challenge: Some(c),
            node: None,
            ttl: Some(ttl),
            open: true,
        });
        Ok(())
    }

    fn reply(out: Vec<SignalOut>) -> Result<Option<(usize, Vec<NodeInfo>)>, String> {
        match &out[..] {
            [] => Ok(None),
            [SignalOut::WSServer(WSServerIn::Message(i, m))] => match serde_json::from_str(m) {
                Ok(WSSignalMessageToNode::ListIDsReply(l)) => Ok(Some((*i, l))),
                _ => Err(format!("a node asking for the list gets {m}")),
            },
            o => Err(format!("asking for the list does {o:?}")),
        }
    }

    /// All infos are different, and are the ones which the nodes announced.
    fn check_list(&self, l: &[NodeInfo], len: usize) -> TestResult {
        let ids: BTreeSet<NodeID> = l.iter().map(|i| i.get_id()).collect();
        ensure_eq!(ids.len(), l.len(), "number of different nodes in the list");
        ensure_eq!(l.len(), len, "number of nodes in the list");
        for i in l {
            let Some(want) = self.infos.get(&i.get_id()) else {
                return Err(format!("the list has {i:?}, which isn't connected"));
            };
            ensure_eq!(flat(i), flat(want), "info in the list");
        }
        Ok(())
    }

    async fn announce(&mut self, x: &In, ci: usize, n: u8, mark: u8, how: How) -> TestResult {
        let cfg = &nodes()[n as usize % NODES];
        let mut info = cfg.info.clone();
        if mark & 3 == 0 {
            info.name = format!("renamed {mark}");
        }
        let index = self.conns[ci].index;
        let own = self.conns[ci].challenge;
        let all: Vec<U256> = self.challenges.iter().cloned().collect();
        let mut field = own.unwrap_or(all[0]);
        let mut sig = cfg.sign(field.to_bytes());
        let mut ok = own.is_some();
        match how {
            How::Right => {}
            How::OtherChallenge(o) => {
                let c = all[o as usize % all.len()];
                ok &= Some(c) == own;
                sig = cfg.sign(c.to_bytes());
                if o & 1 == 0 {
                    field = c;
                }
            }
            How::OtherKey(o) => {
                let other = &nodes()[o as usize % NODES];
                ok &= other.info == cfg.info;
                sig = other.sign(field.to_bytes());
            }
            How::Replay(o) => {
                if !self.used.is_empty() {
                    let u = &self.used[o as usize % self.used.len()];
                    info = nodes()
                        .iter()
                        .find(|c| c.info.get_id() == u.0)
                        .unwrap()
                        .info
                        .clone();
                    sig = u.1.clone();
                    ok = false;
                }
            }
            How::BadSignature(o) => {
                match o % 4 {
                    0 => sig.clear(),
                    1 => sig.truncate(o as usize % 64),
                    2 => sig.push(o),
                    _ => sig[o as usize % 64] ^= 1 << (o % 8),
                }
                ok = false;
            }
            How::BadKey(o) => {
                match o % 4 {
                    0 => info.pubkey.clear(),
                    1 => info.pubkey.truncate(o as usize % 32),
                    2 => info.pubkey.push(o),
                    _ => info.pubkey = vec![o & 1; 32],
                }
                ok = false;
            }
            How::WrongField => {
                // The content of the field doesn't prove anything
                field = U256::rnd();
                sig = cfg.sign(field.to_bytes());
                ok = false;
            }
            How::OldInfo => ok = false,
        }
        let msg = WSSignalMessageFromNode::Announce(MessageAnnounce {
            version: SIGNAL_VERSION,
            challenge: field,
            node_info: info.clone(),
            signature: sig.clone(),
        });
        let mut v = serde_json::to_value(&msg).unwrap();
        if how == How::OldInfo {
            v["Announce"]["node_info"] = if mark & 1 == 0 {
                serde_json::json!({"NodeInfoV1": {}})
            } else {
                serde_json::json!({"NodeInfoV2": {"name":"a","client":"b","pubkey":"AAAA","modules":"ENABLE_RAND"}})
            };
        }
        self.touch(ci, x.ttl);
        let out = self
            .ask(SignalIn::WSServer(WSServerOut::Message(index, v.to_string())))
            .await;
        if !ok {
            ensure!(
                out.is_empty(),
                "an announcement that is wrong ({how:?}, challenge {own:?}) does {out:?}"
            );
            return Ok(());
        }
        let id = info.get_id();
        let old = self.of(&id);
        if let Some(o) = old {
            self.conns.iter_mut().find(|c| c.index == o).unwrap().node = None;
        }
        self.used.push((id, sig));
        self.infos.insert(id, info);
        self.conns[ci].node = Some(id);
        self.conns[ci].challenge = None;
        // The others get the new list, the node gets the configuration, and an older connection
        // of the same node an error.
        let mut new = 0;
        let mut config = 0;
        let mut killed = 0;
        let mut told: BTreeSet<usize> = BTreeSet::new();
        for o in out {
            match o {
                SignalOut::NewNode(n) => {
                    ensure_eq!(n, id, "new node");
                    new += 1;
                }
                SignalOut::WSServer(WSServerIn::Message(i, m)) => {
                    match serde_json::from_str::<WSSignalMessageToNode>(&m) {
                        Ok(WSSignalMessageToNode::SystemConfig(c)) => {
                            ensure_eq!(i, index, "who gets the configuration");
                            ensure_eq!(c.system_realm, realm(x), "system realm");
                            config += 1;
                        }
                        Ok(WSSignalMessageToNode::Error(_)) => {
                            ensure_eq!(Some(i), old, "who gets an error");
                            killed += 1;
                        }
                        Ok(WSSignalMessageToNode::ListIDsReply(l)) => {
                            // Here the maximum length may be ignored
                            let max = x.max.map(|m| m as usize).unwrap_or(usize::MAX);
                            if l.len() != self.infos.len().min(max) {
                                self.check_list(&l, self.infos.len())?;
                            } else {
                                self.check_list(&l, l.len())?;
                            }
                            ensure!(told.insert(i), "a node gets the list twice");
                        }
                        _ => return Err(format!("an announcement sends {m}")),
                    }
                }
                o => return Err(format!("an announcement does {o:?}")),
            }
        }
        ensure_eq!((new, config), (1, 1), "new node and configuration messages");
        ensure_eq!(killed, old.is_some() as usize, "errors to an older connection");
        let want: BTreeSet<usize> = self
            .conns
            .iter()
            .filter(|c| c.node.is_some() && c.index != index)
            .map(|c| c.index)
            .collect();
        ensure_eq!(told, want, "who gets the new list");
        Ok(())
    }
}

fn realm(x: &In) -> Option<flmodules::flo::realm::RealmID> {
    x.realm.map(|r| {
        let id: U256 = [r; 32].into();
        id.into()
    })
}

async fn run_ops(x: &In, s: &mut Server, c: &mut Case) -> TestResult {
    let mut forwarded = 0;
    for op in &x.ops {
        let n = s.conns.len();
        if n == 0 {
            s.connect(x.ttl).await?;
            continue;
        }
        match op {
            Op::Connect => s.connect(x.ttl).await?,
            Op::Announce(ci, node, mark, how) => {
                // Mostly the newest connections, as an announcement works only once
                let ci = n - 1 - (*ci as usize % n.min(4));
                if s.conns[ci].open {
                    s.announce(x, ci, *node, *mark, *how).await?
                }
            }
            Op::List(ci) => {
                let ci = *ci as usize % n;
                if s.conns[ci].open {
                    s.touch(ci, x.ttl);
                    let index = s.conns[ci].index;
                    let out = s.say(index, &WSSignalMessageFromNode::ListIDsRequest).await;
                    match Server::reply(out)? {
                        Some((i, l)) => {
                            ensure_eq!(i, index, "who gets the list");
                            let max = x.max.map(|m| m as usize).unwrap_or(usize::MAX);
                            s.check_list(&l, s.infos.len().min(max))?;
                        }
                        None => ensure!(
                            s.conns[ci].node.is_none(),
                            "a node asking for the list gets no answer"
                        ),
                    }
                }
            }
            Op::Peer(ci, i, f, m) => {
                let ci = *ci as usize % n;
                if !s.conns[ci].open {
                    continue;
                }
                s.touch(ci, x.ttl);
                // Often one of the two is the sender
                let pick = |k: u8| {
                    if k < 100 {
                        s.conns[ci].node.unwrap_or(nodes()[k as usize % NODES].info.get_id())
                    } else {
                        nodes()[k as usize % NODES].info.get_id()
                    }
                };
                let pi = PeerInfo {
                    id_init: pick(*i),
                    id_follow: pick(*f),
                    message: match m % 4 {
                        0 => PeerMessage::Init,
                        1 => PeerMessage::Offer(format!("{m}\n\"")),
                        2 => PeerMessage::Answer("a".into()),
                        _ => PeerMessage::IceCandidate("{}".into()),
                    },
                };
                let index = s.conns[ci].index;
                let out = s.say(index, &WSSignalMessageFromNode::PeerSetup(pi.clone())).await;
                let dst = s.conns[ci].node.and_then(|me| {
                    if pi.id_init == me {
                        s.of(&pi.id_follow)
                    } else if pi.id_follow == me {
                        s.of(&pi.id_init)
                    } else {
                        None
                    }
                });
                let want: Vec<SignalOut> = dst
                    .into_iter()
                    .map(|d| {
                        SignalOut::WSServer(WSServerIn::Message(
                            d,
                            to_node(&WSSignalMessageToNode::PeerSetup(pi.clone())),
                        ))
                    })
                    .collect();
                forwarded += want.len();
                ensure_eq!(out, want, "for a setup message between {} and {}", pi.id_init, pi.id_follow);
            }
            Op::Stats(ci, k) => {
                let ci = *ci as usize % n;
                if s.conns[ci].open {
                    s.touch(ci, x.ttl);
                    let stats = vec![NodeStat {
                        id: nodes()[0].info.get_id(),
                        version: "v".into(),
                        ping_ms: *k as u32,
                        ping_rx: 0,
                    }];
                    let index = s.conns[ci].index;
                    let out = s.say(index, &WSSignalMessageFromNode::NodeStats(stats.clone())).await;
                    if s.conns[ci].node.is_some() {
                        ensure_eq!(out, vec![SignalOut::NodeStats(stats)], "for statistics");
                    }
                }
            }
            Op::Timer(k) => {
                for _ in 0..*k {
                    let out = s.ask(SignalIn::Timer).await;
                    ensure!(
                        out.iter().all(|o| matches!(o, SignalOut::WSServer(WSServerIn::Close(_)))),
                        "the timer does {out:?}"
                    );
                    for i in 0..s.conns.len() {
                        if let Some(t) = s.conns[i].ttl {
                            if t <= 1 {
                                s.drop_conn(i);
                                c.label("idle node removed");
                            } else {
                                s.conns[i].ttl = Some(t - 1);
                            }
                        }
                    }
                }
            }
            Op::Disconnect(ci) => {
                let ci = *ci as usize % n;
                if s.conns[ci].open {
                    let index = s.conns[ci].index;
                    let out = s
                        .ask(SignalIn::WSServer(WSServerOut::Disconnection(index)))
                        .await;
                    ensure_eq!(out, vec![], "for a disconnection");
                    s.drop_conn(ci);
                    s.conns[ci].open = false;
                }
            }
            Op::Garbage(ci, t) => {
                let ci = *ci as usize % n;
                if s.conns[ci].open {
                    s.touch(ci, x.ttl);
                    let index = s.conns[ci].index;
                    let out = s
                        .ask(SignalIn::WSServer(WSServerOut::Message(index, t.clone())))
                        .await;
                    ensure_eq!(out, vec![], "for the text {t:?}");
                }
            }
        }
        let p = take_panics();
        ensure!(p.is_empty(), "{p:?} after {op:?}");
    }
    // Somebody who looks at the list in the end
    c.nontrivial(s.infos.len() > 1 && forwarded > 0);
    c.count("forwarded", forwarded as u64);
    s.connect(x.ttl).await?;
    let last = s.conns.len() - 1;
    s.announce(x, last, 0, 1, How::Right).await?;
    let index = s.conns[last].index;
    let out = s.say(index, &WSSignalMessageFromNode::ListIDsRequest).await;
    let max = x.max.map(|m| m as usize).unwrap_or(usize::MAX);
    match Server::reply(out)? {
        Some((i, l)) if i == index => s.check_list(&l, s.infos.len().min(max))?,
        o => return Err(format!("in the end, the list is {o:?}")),
    }
    let out = s.ask(SignalIn::Stop).await;
    ensure_eq!(out, vec![SignalOut::WSServer(WSServerIn::Stop)], "when stopping");
    Ok(())
}

fn run(x: &In, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on(async {
        let mut broker = SignalServer::new(SignalConfig {
            ttl_minutes: x.ttl,
            system_realm: realm(x),
            max_list_len: x.max.map(|m| m as usize),
        })
        .await
        .unwrap();
        let tap = broker.get_tap_out().await.unwrap().0;
        let mut s = Server {
            broker,
            tap,
            conns: vec![],
            infos: BTreeMap::new(),
            challenges: BTreeSet::new(),
            used: vec![],
        };
        let r = run_ops(x, &mut s, c).await;
        unlink(&mut s.broker).await;
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

pub fn run_signal(ctx: &mut Ctx) {
    ctx.assume("ed25519 signatures cannot be forged; the websocket server never uses an index twice");
    ctx.sub(
        Spec {
            name: "server",
            rule: "up to 40 connections, announcements (right, forged, replayed or malformed), requests, setup messages, minutes and disconnections; non-trivial: two nodes are connected in the end and a setup message was passed on",
            quick: 40_000,
            thorough: 1_000_000,
            max_s: 60,
        },
        vec![],
        strat,
        run,
    );
}
