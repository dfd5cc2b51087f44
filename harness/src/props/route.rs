//! C13: messages get routed to the right node, without loops.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::props::kad::{common, id3, mkid};
use crate::{ensure, ensure_eq};
use flarch::nodeids::NodeID;
use flmodules::dht_router::broker::{DHTRouter, DHTRouterIn, DHTRouterOut};
use flmodules::dht_router::intern::ModuleMessage;
use flmodules::dht_router::kademlia::Config;
use flmodules::nodeconfig::NodeInfo;
use flmodules::router::broker::BrokerRouter;
use flmodules::router::messages::{NetworkWrapper, RouterIn, RouterOut};
use flmodules::timer::{BrokerTimer, TimerMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use tokio::sync::mpsc::UnboundedReceiver;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// How node a learns of the others
    Tell(u8, Vec<u8>, u8),
    Tick(u8),
    Closest(u8, Result<u8, [u8; 3]>),
    Direct(u8, Result<u8, [u8; 3]>),
    Neighbour(u8, u8),
    Broadcast(u8),
    Disconnect(u8, u8),
    Down(u8),
    Up(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    ids: Vec<[u8; 3]>,
    k: u8,
    interval: u8,
    timeout: u8,
    full: bool,
    ops: Vec<Op>,
    finish: bool,
    /// How the nodes learn of all others at the end
    #[serde(default)]
    ways: Vec<u8>,
    probes: Vec<(u8, Result<u8, [u8; 3]>)>,
}

fn strat() -> BoxedStrategy<In> {
    let dst = || prop_oneof![3 => any::<u8>().prop_map(Ok), 2 => id3().prop_map(Err)];
    let op = prop_oneof![
        3 => (any::<u8>(), proptest::collection::vec(any::<u8>(), 1..6), 0u8..3).prop_map(|(a, b, c)| Op::Tell(a, b, c)),
        3 => (1u8..4).prop_map(Op::Tick),
        8 => (any::<u8>(), dst()).prop_map(|(a, d)| Op::Closest(a, d)),
        8 => (any::<u8>(), dst()).prop_map(|(a, d)| Op::Direct(a, d)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Neighbour(a, b)),
        2 => any::<u8>().prop_map(Op::Broadcast),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Disconnect(a, b)),
        1 => any::<u8>().prop_map(Op::Down),
        1 => any::<u8>().prop_map(Op::Up),
    ];
    (
        proptest::collection::vec(id3(), 2..11),
        (1u8..4, 1u8..4, 1u8..5),
        any::<bool>(),
        proptest::collection::vec(op, 1..24),
        (proptest::bool::weighted(0.5), proptest::collection::vec(0u8..3, 10)),
        proptest::collection::vec((any::<u8>(), dst()), 1..12),
    )
        .prop_map(|(ids, (k, interval, more), full, ops, (finish, ways), probes)| In {
            ids,
            k,
            interval,
            timeout: interval + more,
            full,
            ops,
            finish,
            ways,
            probes,
        })
        .boxed()
}

struct RNode {
    id: NodeID,
    up: bool,
    router: BrokerRouter,
    tap: UnboundedReceiver<RouterIn>,
    dht: DHTRouter,
    out: UnboundedReceiver<DHTRouterOut>,
    timer: BrokerTimer,
}

impl RNode {
    fn used(&self) -> Vec<NodeID> {
        self.dht.stats.borrow().bucket_nodes.concat()
    }
}

struct RNet {
    nodes: Vec<RNode>,
    /// All user messages which went over the network: from, to
    hops: Vec<(usize, NodeID, ModuleMessage)>,
    /// What the nodes gave to the modules above
    events: Vec<(usize, DHTRouterOut)>,
    next: u32,
    nontrivial: bool,
}

const LIMIT: usize = 400;

impl RNet {
    fn index(&self, id: &NodeID) -> Option<usize> {
        self.nodes.iter().position(|n| n.id == *id)
    }

    /// Delivers all messages until nobody sends any more.
    async fn settle(&mut self) -> TestResult {
        loop {
            idle().await;
            let mut got = vec![];
            for i in 0..self.nodes.len() {
                while let Ok(RouterIn::NetworkWrapperToNetwork(to, w)) = self.nodes[i].tap.try_recv() {
                    got.push((i, to, w));
                }
                while let Ok(e) = self.nodes[i].out.try_recv() {
                    if !matches!(e, DHTRouterOut::NodeList(_)) {
                        self.events.push((i, e));
                    }
                }
            }
            if got.is_empty() {
                return Ok(());
            }
            for (from, to, w) in got {
                let m: ModuleMessage = w
                    .unwrap_yaml("DHTRouter")
                    .ok_or("a message of the router cannot be read")?;
                ensure!(to != self.nodes[from].id, "a node sends a message to itself: {m:?}");
                if matches!(
                    m,
                    ModuleMessage::Closest(..) | ModuleMessage::Direct(..) | ModuleMessage::Neighbour(_)
                ) {
                    ensure!(self.nodes[from].up, "a node which is down sends a message");
                    self.hops.push((from, to, m));
                    ensure!(self.hops.len() < LIMIT, "a message loops: {:?}", &self.hops[..8]);
                }
                if let Some(t) = self.index(&to) {
                    if self.nodes[t].up && self.nodes[from].up {
                        let id = self.nodes[from].id;
                        self.nodes[t]
                            .router
                            .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(id, w))
                            .unwrap();
                    }
                }
            }
        }
    }

    async fn tick(&mut self) -> TestResult {
        for n in self.nodes.iter_mut().filter(|n| n.up) {
            n.timer.emit_msg_out(TimerMessage::Second).unwrap();
        }
        self.settle().await
    }

    async fn tell(&mut self, a: usize, v: Vec<NodeID>, how: u8) -> TestResult {
        let me = self.nodes[a].id;
        let v: Vec<NodeID> = v.into_iter().filter(|i| *i != me).collect();
        let r = &mut self.nodes[a].router;
        match how % 3 {
            0 => r
                .emit_msg_out(RouterOut::NodeInfoAvailable(
                    v.into_iter().map(NodeInfo::new_from_id).collect(),
                ))
                .unwrap(),
            1 => {
                for id in v {
                    r.emit_msg_out(RouterOut::Connected(id)).unwrap()
                }
            }
            _ => r
                .emit_msg_out(RouterOut::NodeIDsConnected(v.into()))
                .unwrap(),
        }
        self.settle().await
    }

    /// Sends one message and checks its way. Returns where it ended.
    async fn send(
        &mut self,
        a: usize,
        key: NodeID,
        closest: bool,
        c: &mut Case,
    ) -> Result<Option<(usize, bool)>, String> {
        self.next += 1;
        let msg = NetworkWrapper {
            module: "Test".into(),
            msg: format!("message: {}\n- #'\"", self.next),
        };
        self.hops.clear();
        self.events.clear();
        let me = self.nodes[a].id;
        let used: Vec<Vec<NodeID>> = self.nodes.iter().map(|n| n.used()).collect();
        self.nodes[a]
            .dht
            .broker
            .emit_msg_in(if closest {
                DHTRouterIn::MessageClosest(key, msg.clone())
            } else {
                DHTRouterIn::MessageDirect(key, msg.clone())
            })
            .unwrap();
        self.settle().await?;
        let what = format!(
            "{} message from {me:x} for {key:x} over {:?}",
            if closest { "closest" } else { "direct" },
            self.hops.iter().map(|h| (h.0, format!("{:x}", h.1))).collect::<Vec<_>>()
        );
        let mut at = a;
        let mut seen = BTreeSet::from([me]);
        let mut arrived = true;
        for (i, (from, to, m)) in self.hops.iter().enumerate() {
            ensure!(arrived && *from == at, "{what}: the message is multiplied or lost");
            let want = if closest {
                ModuleMessage::Closest(me, key, msg.clone())
            } else {
                ModuleMessage::Direct(me, key, msg.clone())
            };
            ensure_eq!(m, &want, "{what}: the message at hop {i}");
            ensure!(seen.insert(*to), "{what}: the message comes twice to the same node");
            let (before, after) = (common(&self.nodes[*from].id, &key), common(to, &key));
            ensure!(
                after >= before,
                "{what}: hop {i} goes from {before} to only {after} bits in common"
            );
            match self.index(to).filter(|t| self.nodes[*t].up) {
                Some(t) => at = t,
                None => arrived = false,
            }
        }
        // What was given to the modules on the way
        let mut want = vec![];
        let ids: Vec<NodeID> = std::iter::once(me).chain(self.hops.iter().map(|h| h.1)).collect();
        let stopped = ids.len() - 1;
        let mut end = None;
        for i in 1..ids.len() {
            let Some(t) = self.index(&ids[i]).filter(|t| self.nodes[*t].up) else {
                break;
            };
            if i == stopped {
                if ids[i] == key {
                    want.push((t, DHTRouterOut::MessageDest(me, ids[i - 1], msg.clone())));
                    end = Some((t, true));
                } else {
                    if closest {
                        want.push((t, DHTRouterOut::MessageClosest(me, ids[i - 1], key, msg.clone())));
                    }
                    end = Some((t, false));
                }
            } else if closest {
                want.push((
                    t,
                    DHTRouterOut::MessageRouting(me, ids[i - 1], ids[i + 1], key, msg.clone()),
                ));
            }
        }
        let mut got = self.events.clone();
        let sort = |v: &mut Vec<(usize, DHTRouterOut)>| v.sort_by_key(|e| format!("{e:?}"));
        sort(&mut got);
        sort(&mut want);
        ensure_eq!(got, want, "{what}: the messages given to the modules");
        if self.hops.len() > 1 {
            self.nontrivial = true;
            c.label("several hops");
        }
        // The end is at a node which doesn't know any better.
        let e = end.map(|e| e.0).or((stopped == 0).then_some(a));
        if let Some(e) = e {
            let own = common(&self.nodes[e].id, &key);
            for id in &used[e] {
                ensure!(
                    common(id, &key) <= own,
                    "{what}: the message stops although {id:x} is closer"
                );
            }
        }
        c.count("messages", 1);
        c.count("hops", self.hops.len() as u64);
        Ok(end)
    }
}

async fn run_net(x: &In, c: &mut Case) -> TestResult {
    let mut ids: Vec<NodeID> = x.ids.iter().map(mkid).collect();
    let mut seen = BTreeSet::new();
    ids.retain(|i| seen.insert(*i));
    let n = ids.len();
    let mut net = RNet {
        nodes: vec![],
        hops: vec![],
        events: vec![],
        next: 0,
        nontrivial: false,
    };
    for id in &ids {
        let mut router = BrokerRouter::new();
        let timer = BrokerTimer::new();
        let tap = router.get_tap_in().await.unwrap().0;
        let mut dht = DHTRouter::start(
            Config {
                root: *id,
                k: x.k as usize,
                ping_interval: x.interval as u32,
                ping_timeout: x.timeout as u32,
            },
            timer.clone(),
            router.clone(),
        )
        .await
        .unwrap();
        let out = dht.broker.get_tap_out().await.unwrap().0;
        net.nodes.push(RNode {
            id: *id,
            up: true,
            router,
            tap,
            dht,
            out,
            timer,
        });
    }
    let res = run_ops(x, &mut net, &ids, n, c).await;
    for node in net.nodes.iter_mut() {
                    unlink(&mut node.router).await;
            unlink(&mut node.timer).await;
            unlink(&mut node.dht.broker).await;
    }
    c.nontrivial(net.nontrivial);
    res
}

async fn run_ops(x: &In, net: &mut RNet, ids: &[NodeID], n: usize, c: &mut Case) -> TestResult {
    let at = |i: &u8| *i as usize % n;
    let dst = |d: &Result<u8, [u8; 3]>| match d {
        Ok(i) => ids[*i as usize % n],
        Err(b) => mkid(b),
    };
    if x.full {
        for i in 0..n {
            net.tell(i, ids.to_vec(), i as u8 % 3).await?;
        }
        for _ in 0..2 {
            net.tick().await?;
        }
    }
    for op in &x.ops {
        match op {
            Op::Tell(a, v, how) => {
                let v = v.iter().map(|i| ids[at(i)]).collect();
                if net.nodes[at(a)].up {
                    net.tell(at(a), v, *how).await?;
                }
            }
            Op::Tick(n) => {
                for _ in 0..*n {
                    net.tick().await?;
                }
            }
            Op::Closest(a, d) | Op::Direct(a, d) => {
                if net.nodes[at(a)].up {
                    net.send(at(a), dst(d), matches!(op, Op::Closest(..)), c).await?;
                }
            }
            Op::Neighbour(a, b) => {
                let (a, b) = (at(a), at(b));
                if a == b || !net.nodes[a].up {
                    continue;
                }
                net.events.clear();
                net.hops.clear();
                let msg = NetworkWrapper {
                    module: "Test".into(),
                    msg: "n".into(),
                };
                net.nodes[a]
                    .dht
                    .broker
                    .emit_msg_in(DHTRouterIn::MessageNeighbour(ids[b], msg.clone()))
                    .unwrap();
                net.settle().await?;
                let want = if net.nodes[b].up {
                    vec![(b, DHTRouterOut::MessageNeighbour(ids[a], msg))]
                } else {
                    vec![]
                };
                ensure_eq!(net.events, want, "the delivery of a message to a neighbour");
            }
            Op::Broadcast(a) => {
                let a = at(a);
                if !net.nodes[a].up {
                    continue;
                }
                net.events.clear();
                net.hops.clear();
                let msg = NetworkWrapper {
                    module: "Test".into(),
                    msg: "b".into(),
                };
                let used = net.nodes[a].used();
                net.nodes[a]
                    .dht
                    .broker
                    .emit_msg_in(DHTRouterIn::MessageBroadcast(msg.clone()))
                    .unwrap();
                net.settle().await?;
                let mut got: Vec<usize> = vec![];
                for (i, e) in &net.events {
                    ensure!(
                        *e == DHTRouterOut::MessageNeighbour(ids[a], msg.clone()),
                        "a broadcast is received as {e:?}"
                    );
                    got.push(*i);
                }
                let mut want: Vec<usize> = used
                    .iter()
                    .filter_map(|id| net.index(id))
                    .filter(|i| net.nodes[*i].up)
                    .collect();
                got.sort();
                want.sort();
                ensure_eq!(got, want, "the nodes which got a broadcast");
                c.label_if(got.len() > 1, "broadcast");
            }
            Op::Disconnect(a, b) => {
                let (a, b) = (at(a), at(b));
                for (x, y) in [(a, b), (b, a)] {
                    net.nodes[x]
                        .router
                        .emit_msg_out(RouterOut::NodeIDsConnected(vec![].into()))
                        .unwrap();
                    net.nodes[x]
                        .router
                        .emit_msg_out(RouterOut::Disconnected(ids[y]))
                        .unwrap();
                    net.settle().await?;
                    ensure!(
                        !net.nodes[x].used().contains(&ids[y]),
                        "a disconnected node is still used"
                    );
                }
            }
            Op::Down(a) => {
                if net.nodes.iter().filter(|n| n.up).count() > 2 {
                    net.nodes[at(a)].up = false;
                    c.label("down");
                }
            }
            Op::Up(a) => net.nodes[at(a)].up = true,
        }
    }
    if !x.finish {
        return Ok(());
    }
    // Everybody gets the list of the nodes which are up, until the others are forgotten.
    let up: Vec<usize> = (0..n).filter(|i| net.nodes[*i].up).collect();
    let list: Vec<NodeID> = up.iter().map(|i| ids[*i]).collect();
    for round in 0..(x.timeout as usize + 2) * 4 {
        if round % 2 == 0 {
            for i in &up {
                // Every way of learning of the others is enough: from the signalling server, by
                // connecting to them, or from the modules below.
                let all = x.ways.get(*i).copied().unwrap_or_default() % 3;
                // Only some of them are connected directly.
                if round % 4 == 0 {
                    net.tell(*i, list.clone(), all).await?;
                } else {
                    let l = list.iter().cloned().skip(i % 3).step_by(2).collect();
                    net.tell(*i, l, 2).await?;
                };
            }
        }
        net.tick().await?;
    }
    for i in &up {
        for id in net.nodes[*i].used() {
            ensure!(list.contains(&id), "a node which is down is still used for routing");
        }
    }
    c.label("complete");
    for (j, (a, d)) in x.probes.iter().enumerate() {
        let a = up[*a as usize % up.len()];
        let key = match d {
            Ok(i) => list[*i as usize % list.len()],
            Err(b) => mkid(b),
        };
        if key == ids[a] {
            continue;
        }
        let best = list.iter().map(|id| common(id, &key)).max().unwrap();
        if list.contains(&key) {
            for closest in [true, false] {
                let end = net.send(a, key, closest, c).await?;
                ensure!(
                    end.map(|(t, dest)| (ids[t], dest)) == Some((key, true)),
                    "{} message {j} from {:x} doesn't arrive at {key:x}, but at {end:?}",
                    if closest { "closest" } else { "direct" },
                    ids[a]
                );
            }
        } else {
            let end = net.send(a, key, true, c).await?;
            let t = end.map(|e| e.0).unwrap_or(a);
            ensure!(
                common(&ids[t], &key) == best,
                "closest message {j} from {:x} for {key:x} ends at {:x}, which isn't the closest",
                ids[a],
                ids[t]
            );
        }
    }
    Ok(())
}

fn run(x: &In, c: &mut Case) -> TestResult {
    let r = block_on(run_net(x, c));
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

pub fn run_routing(ctx: &mut Ctx) {
    ctx.assume("the network delivers messages to nodes which are up; one routed message is on its way at a time");
    ctx.sub(
        Spec {
            name: "routing",
            rule: "networks of 2 to 10 nodes with any knowledge of each other, with messages, ticks, disconnections and nodes going down; non-trivial: a message went over more than one hop",
            quick: 3_000,
            thorough: 150_000,
            max_s: 75,
        },
        vec![],
        strat,
        run,
    );
}
