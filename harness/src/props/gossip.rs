//! C14: the events a node keeps. C15: all nodes get the same events.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::props::netsim::MemDs;
use crate::{ensure, ensure_eq};
use flarch::data_storage::DataStorage;
use flarch::nodeids::{NodeID, U256};
use flmodules::gossip_events::broker::{Gossip, GossipIn, GossipOut};
use flmodules::gossip_events::core::{Category, Event, EventsStorage};
use flmodules::gossip_events::intern::ModuleMessage;
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::random_connections::broker::{BrokerRandom, RandomIn, RandomOut};
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::{BrokerTimer, TimerMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tokio::sync::mpsc::UnboundedReceiver;

const MAX_TEXT: usize = 50;
const MAX_INFO: usize = 100;
const CATS: [Category; 2] = [Category::TextMessage, Category::NodeInfo];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ev {
    info: bool,
    src: u8,
    created: i64,
    msg: u8,
}

fn nid(n: u8) -> NodeID {
    let mut b = [n; 32];
    b[0] = n.wrapping_mul(37);
    b.into()
}

impl Ev {
    fn event(&self) -> Event {
        Event {
            category: CATS[self.info as usize],
            src: nid(self.src),
            created: self.created,
            msg: match self.msg {
                0 => "".into(),
                1 => "- text: \"with\" #signs\n".into(),
                m => format!("message {m}"),
            },
        }
    }
}

fn ev() -> BoxedStrategy<Ev> {
    (
        any::<bool>(),
        prop_oneof![3 => 0u8..6, 1 => 0u8..160],
        prop_oneof![
            6 => 0i64..30,
            2 => 0i64..1000,
            1 => Just(0),
            1 => Just(-1),
            1 => Just(i64::MAX),
            1 => Just(i64::MIN),
            1 => (0i64..4).prop_map(|i| (1 << 53) + i)
        ],
        0u8..4,
    )
        .prop_map(|(info, src, created, msg)| Ev {
            info,
            src,
            created,
            msg,
        })
        .boxed()
}

type Events = BTreeMap<U256, Event>;

/// The events which must and which may be kept of those known: for the node infos the newest of
/// each node. More than one may be there if the times are the same.
fn candidates(all: &Events, cat: Category) -> Events {
    let mut newest: BTreeMap<NodeID, i64> = BTreeMap::new();
    for e in all.values() {
        let n = newest.entry(e.src).or_insert(e.created);
        *n = (*n).max(e.created);
    }
    all.iter()
        .filter(|(_, e)| e.category == cat)
        .filter(|(_, e)| {
            cat == Category::TextMessage
                || !all
                    .values()
                    .any(|o| o.category == cat && o.src == e.src && o.created > e.created)
        })
        .map(|(i, e)| (*i, e.clone()))
        .collect()
}

/// Checks that `held` are the newest of `all`.
fn check_held(held: &Events, all: &Events) -> TestResult {
    for (cat, max) in [(CATS[0], MAX_TEXT), (CATS[1], MAX_INFO)] {
        let cand = candidates(all, cat);
        let h: Vec<&Event> = held.values().filter(|e| e.category == cat).collect();
        for e in &h {
            ensure!(
                all.get(&e.get_id()) == Some(*e),
                "{e:?} is kept but was never added"
            );
            ensure!(
                cand.contains_key(&e.get_id()),
                "{e:?} is kept although there is a newer one of this node"
            );
        }
        let number = if cat == Category::NodeInfo {
            let srcs: BTreeSet<_> = h.iter().map(|e| e.src).collect();
            ensure!(srcs.len() == h.len(), "two infos of the same node are kept");
            cand.values().map(|e| e.src).collect::<BTreeSet<_>>().len()
        } else {
            cand.len()
        };
        ensure_eq!(h.len(), number.min(max), "the number of {cat:?} which are kept");
        let oldest = h.iter().map(|e| e.created).min().unwrap_or(0);
        let h: BTreeSet<(NodeID, U256)> = h.iter().map(|e| (e.src, e.get_id())).collect();
        for (id, e) in &cand {
            let there = if cat == Category::NodeInfo {
                h.iter().any(|(s, _)| *s == e.src)
            } else {
                h.contains(&(e.src, *id))
            };
            ensure!(
                there || e.created <= oldest,
                "{e:?} isn't kept, but the older one from {oldest} is"
            );
        }
    }
    Ok(())
}

fn held(es: &EventsStorage) -> Result<Events, String> {
    let mut h = Events::new();
    for cat in CATS {
        for e in es.events(cat) {
            ensure!(e.category == cat, "{e:?} is listed in {cat:?}");
            ensure!(h.insert(e.get_id(), e).is_none(), "an event is kept twice");
        }
    }
    Ok(h)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Add(Ev),
    Again(u16),
    /// Many events at once: number, first time, step
    Bulk(bool, u8, i64, i8),
    Reload,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Store {
    ops: Vec<SOp>,
    order: Vec<u16>,
}

fn strat_store() -> BoxedStrategy<Store> {
    let op = prop_oneof![
        12 => ev().prop_map(SOp::Add),
        3 => any::<u16>().prop_map(SOp::Again),
        2 => (any::<bool>(), 1u8..130, 0i64..40, -2i8..3).prop_map(|(c, n, f, s)| SOp::Bulk(c, n, f, s)),
        1 => Just(SOp::Reload),
    ];
    (
        proptest::collection::vec(op, 1..40),
        proptest::collection::vec(any::<u16>(), 0..300),
    )
        .prop_map(|(ops, order)| Store { ops, order })
        .boxed()
}

fn check_store(es: &EventsStorage, all: &Events) -> Result<Events, String> {
    let h = held(es)?;
    check_held(&h, all)?;
    let ids: BTreeSet<U256> = es.event_ids().into_iter().collect();
    ensure!(
        ids.len() == es.event_ids().len() && ids.iter().eq(h.keys()),
        "the list of IDs isn't the one of the events"
    );
    Ok(h)
}

fn run_store(x: &Store, c: &mut Case) -> TestResult {
    let mut es = EventsStorage::new();
    let mut all = Events::new();
    let mut history: Vec<Event> = vec![];
    let mut last = Events::new();
    let mut full = false;
    for op in &x.ops {
        let evs: Vec<Event> = match op {
            SOp::Add(e) => vec![e.event()],
            SOp::Again(i) if !history.is_empty() => {
                vec![history[*i as usize % history.len()].clone()]
            }
            SOp::Bulk(info, n, first, step) => (0..*n)
                .map(|i| {
                    Ev {
                        info: *info,
                        src: i,
                        created: first + *step as i64 * i as i64,
                        msg: 5,
                    }
                    .event()
                })
                .collect(),
            SOp::Reload => {
                let s = es.get().map_err(|e| e.to_string())?;
                let mut back = EventsStorage::new();
                back.set(&s).map_err(|e| e.to_string())?;
                ensure!(back == es, "the events change when they are stored and loaded");
                es = back;
                vec![]
            }
            _ => vec![],
        };
        for e in evs {
            let id = e.get_id();
            let new = es.add_event(e.clone());
            all.insert(id, e.clone());
            let h = held(&es)?;
            ensure_eq!(
                new,
                h.contains_key(&id) && !last.contains_key(&id),
                "the answer if {e:?} is new"
            );
            if !new {
                ensure!(h == last, "an event which isn't new changes the others");
            }
            ensure_eq!(es.event(&id), h.get(&id).cloned(), "looking up {id}");
            history.push(e);
            last = h;
        }
        let h = check_store(&es, &all)?;
        full |= h.len() < all.len();
        // Looking up some events, of which one is unknown
        let mut ask: Vec<U256> = all.keys().cloned().step_by(3).collect();
        ask.push(nid(250));
        let got: BTreeSet<U256> = es.get_events_by_ids(ask.clone()).iter().map(|e| e.get_id()).collect();
        let want: BTreeSet<U256> = ask.into_iter().filter(|i| h.contains_key(i)).collect();
        ensure_eq!(got, want, "the events for a list of IDs");
    }
    c.nontrivial(full);
    c.label_if(
        last.values().filter(|e| e.category == CATS[0]).count() == MAX_TEXT,
        "full of texts",
    );
    c.label_if(
        last.values().filter(|e| e.category == CATS[1]).count() == MAX_INFO,
        "full of infos",
    );
    c.count("events", history.len() as u64);
    // The same in another order, with some repetitions.
    let mut other = EventsStorage::new();
    let mut rest = history.clone();
    for o in &x.order {
        if rest.is_empty() {
            break;
        }
        let e = rest.swap_remove(*o as usize % rest.len());
        if o % 5 == 0 {
            rest.push(e.clone());
        }
        other.add_event(e);
    }
    for e in rest.into_iter().rev() {
        other.add_event(e);
    }
    let (a, b) = (held(&es)?, held(&other)?);
    let diff = |a: &Events, b: &Events| -> Vec<Event> {
        a.iter().filter(|(k, _)| !b.contains_key(k)).map(|(_, v)| v.clone()).take(3).collect()
    };
    ensure!(
        a == b,
        "the same events in another order give others: {:?} instead of {:?}",
        diff(&b, &a),
        diff(&a, &b)
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(u8, Ev),
    Text(u8, u8),
    Bulk(u8, bool, u8, i64),
    Connect(u8, u8),
    Disconnect(u8, u8),
    Tick(u8),
    Deliver(u16),
    DeliverAll,
    Drop(u16),
    Dup(u16),
    Restart(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    nodes: u8,
    edges: Vec<(u8, u8)>,
    ops: Vec<Op>,
    order: Vec<u16>,
}

fn strat_net() -> BoxedStrategy<In> {
    let op = prop_oneof![
        6 => (any::<u8>(), ev()).prop_map(|(a, e)| Op::Add(a, e)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, e)| Op::Text(a, e)),
        1 => (any::<u8>(), any::<bool>(), 1u8..70, 0i64..40).prop_map(|(a, c, n, f)| Op::Bulk(a, c, n, f)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Connect(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Disconnect(a, b)),
        4 => any::<u8>().prop_map(Op::Tick),
        8 => any::<u16>().prop_map(Op::Deliver),
        2 => Just(Op::DeliverAll),
        3 => any::<u16>().prop_map(Op::Drop),
        2 => any::<u16>().prop_map(Op::Dup),
        1 => any::<u8>().prop_map(Op::Restart),
    ];
    (
        2u8..6,
        proptest::collection::vec((any::<u8>(), any::<u8>()), 0..8),
        proptest::collection::vec(op, 1..40),
        proptest::collection::vec(any::<u16>(), 1..20),
    )
        .prop_map(|(nodes, edges, ops, order)| In {
            nodes,
            edges,
            ops,
            order,
        })
        .boxed()
}

struct GNode {
    info: NodeInfo,
    id: NodeID,
    ds: MemDs,
    rnd: BrokerRandom,
    tap: UnboundedReceiver<RandomIn>,
    timer: BrokerTimer,
    gossip: Gossip,
    out: UnboundedReceiver<GossipOut>,
    held: Events,
    /// All events which this node ever had or told about
    reported: BTreeSet<U256>,
}

impl GNode {
    async fn start(info: NodeInfo, ds: MemDs) -> Self {
        let mut rnd = BrokerRandom::new();
        let timer = BrokerTimer::new();
        let tap = rnd.get_tap_in().await.unwrap().0;
        let mut gossip = Gossip::start(Box::new(ds.clone()), info.clone(), timer.clone(), rnd.clone())
            .await
            .unwrap();
        let out = gossip.broker.get_tap_out().await.unwrap().0;
        idle().await;
        Self {
            id: info.get_id(),
            info,
            ds,
            rnd,
            tap,
            timer,
            gossip,
            out,
            held: Events::new(),
            reported: BTreeSet::new(),
        }
    }

    async fn stop(&mut self) {
                    unlink(&mut self.rnd).await;
            unlink(&mut self.timer).await;
            unlink(&mut self.gossip.broker).await;
    }

    fn events(&self) -> Result<Events, String> {
        let mut h = Events::new();
        for cat in CATS {
            for e in self.gossip.events(cat) {
                ensure!(e.category == cat, "{e:?} is listed in {cat:?}");
                ensure!(h.insert(e.get_id(), e).is_none(), "an event is kept twice");
            }
        }
        let ids: BTreeSet<U256> = self.gossip.event_ids().into_iter().collect();
        ensure!(ids.iter().eq(h.keys()), "the IDs of the events aren't the ones of the events");
        Ok(h)
    }
}

struct GNet {
    nodes: Vec<GNode>,
    edges: BTreeSet<(usize, usize)>,
    pool: Vec<(usize, usize, NetworkWrapper)>,
    all: Events,
    order: Vec<u16>,
    oi: usize,
    transferred: usize,
}

impl GNet {
    /// Looks at what changed, after something happened to one node.
    async fn observe(&mut self) -> TestResult {
        idle().await;
        for i in 0..self.nodes.len() {
            while let Ok(m) = self.nodes[i].tap.try_recv() {
                let RandomIn::NetworkWrapperToNetwork(to, w) = m else {
                    return Err("the gossip reports a failing node".into());
                };
                ensure!(to != self.nodes[i].id, "a node gossips with itself");
                if let Some(t) = self.nodes.iter().position(|n| n.id == to) {
                    let m: ModuleMessage = w.unwrap_yaml("Gossip").ok_or("unreadable message")?;
                    if let ModuleMessage::Events(e) = &m {
                        self.transferred += e.len();
                        for e in e {
                            ensure!(
                                self.all.get(&e.get_id()) == Some(e),
                                "{e:?} is sent but was never made"
                            );
                        }
                    }
                    if self.edges.contains(&(i.min(t), i.max(t))) {
                        self.pool.push((i, t, w));
                    }
                }
            }
            let now = self.nodes[i].events()?;
            let n = &mut self.nodes[i];
            let mut told: Vec<Event> = vec![];
            while let Ok(GossipOut::NewEvent(e)) = n.out.try_recv() {
                told.push(e);
            }
            for e in &told {
                ensure!(
                    n.reported.insert(e.get_id()),
                    "node {i} reports {e:?} again"
                );
                ensure!(
                    self.all.get(&e.get_id()) == Some(e),
                    "node {i} reports {e:?} which was never made"
                );
            }
            for (id, e) in &now {
                ensure!(
                    n.held.contains_key(id) || told.contains(e),
                    "node {i} has the new {e:?}, but didn't report it"
                );
            }
            if now != n.held {
                let mut both = n.held.clone();
                both.extend(now.clone());
                check_held(&now, &both).map_err(|e| format!("node {i}: {e}"))?;
            }
            // What a restarted node would have
            let stored = n.ds.get("Gossip").unwrap();
            let mut es = EventsStorage::new();
            if !stored.is_empty() {
                es.set(&stored).map_err(|e| format!("the stored events cannot be read: {e}"))?;
            }
            ensure!(
                held(&es)? == now,
                "after a restart, node {i} wouldn't have the same events"
            );
            n.held = now;
        }
        Ok(())
    }

    fn lists(&mut self) {
        for i in 0..self.nodes.len() {
            let l: Vec<NodeID> = (0..self.nodes.len())
                .filter(|j| self.edges.contains(&(i.min(*j), i.max(*j))))
                .map(|j| self.nodes[j].id)
                .collect();
            self.nodes[i]
                .rnd
                .emit_msg_out(RandomOut::NodeIDsConnected(l.into()))
                .unwrap();
        }
    }

    async fn deliver(&mut self, k: usize) -> TestResult {
        let (from, to, w) = self.pool.remove(k);
        let id = self.nodes[from].id;
        self.nodes[to]
            .rnd
            .emit_msg_out(RandomOut::NetworkWrapperFromNetwork(id, w))
            .unwrap();
        self.observe().await
    }

    async fn flush(&mut self) -> TestResult {
        let mut n = 0;
        while !self.pool.is_empty() {
            let o = self.order[self.oi % self.order.len()] as usize;
            self.oi += 1;
            self.deliver(o % self.pool.len()).await?;
            n += 1;
            ensure!(n < 5_000, "the nodes never stop sending messages");
        }
        Ok(())
    }
}

async fn run_ops(x: &In, net: &mut GNet, c: &mut Case) -> TestResult {
    let n = x.nodes as usize;
    net.lists();
    // The event of the node itself
    for i in 0..n {
        for (id, e) in net.nodes[i].events()? {
            ensure!(
                e.category == Category::NodeInfo
                    && e.src == net.nodes[i].id
                    && NodeInfo::decode(&e.msg).ok() == Some(net.nodes[i].info.clone()),
                "a new node starts with {e:?}"
            );
            net.all.insert(id, e.clone());
            net.nodes[i].held.insert(id, e);
            net.nodes[i].reported.insert(id);
        }
        ensure!(net.nodes[i].held.len() == 1, "a node doesn't tell about itself");
    }
    for node in net.nodes.iter_mut() {
        while node.out.try_recv().is_ok() {}
    }
    net.observe().await?;
    for op in &x.ops {
        match op {
            Op::Add(a, e) => {
                let e = e.event();
                net.all.insert(e.get_id(), e.clone());
                net.nodes[*a as usize % n]
                    .gossip
                    .broker
                    .emit_msg_in(GossipIn::AddEvent(e))
                    .unwrap();
            }
            Op::Text(a, t) => {
                let node = &mut net.nodes[*a as usize % n];
                let before: BTreeSet<U256> = node.held.keys().cloned().collect();
                let text = format!("text {t}");
                node.gossip.add_chat_message(text.clone()).await.unwrap();
                idle().await;
                let mine: Vec<Event> = node
                    .gossip
                    .chat_events()
                    .into_iter()
                    .filter(|e| !before.contains(&e.get_id()))
                    .collect();
                if let Some(e) = mine.first() {
                    ensure!(
                        mine.len() == 1 && e.msg == text && e.src == node.id,
                        "a new chat message is kept as {mine:?}"
                    );
                    net.all.insert(e.get_id(), e.clone());
                } else {
                    // Only events from the far future are newer
                    let future = node.held.values().filter(|e| e.category == CATS[0]).count();
                    ensure!(
                        future >= MAX_TEXT || node.held.values().any(|e| e.msg == text),
                        "a new chat message got lost"
                    );
                }
            }
            Op::Bulk(a, info, k, first) => {
                for i in 0..*k {
                    let e = Ev {
                        info: *info,
                        src: 10 + i,
                        created: first + i as i64 / 2,
                        msg: 7,
                    }
                    .event();
                    net.all.insert(e.get_id(), e.clone());
                    net.nodes[*a as usize % n]
                        .gossip
                        .broker
                        .emit_msg_in(GossipIn::AddEvent(e))
                        .unwrap();
                    if i % 16 == 15 {
                        net.observe().await?;
                    }
                }
            }
            Op::Connect(a, b) | Op::Disconnect(a, b) => {
                let (a, b) = (*a as usize % n, *b as usize % n);
                if a != b {
                    let e = (a.min(b), a.max(b));
                    if matches!(op, Op::Connect(..)) {
                        net.edges.insert(e);
                    } else {
                        net.edges.remove(&e);
                        net.pool.retain(|p| (p.0.min(p.1), p.0.max(p.1)) != e);
                    }
                    net.lists();
                }
            }
            Op::Tick(a) => {
                net.nodes[*a as usize % n]
                    .timer
                    .emit_msg_out(TimerMessage::Second)
                    .unwrap();
            }
            Op::Deliver(k) if !net.pool.is_empty() => {
                let k = *k as usize % net.pool.len();
                net.deliver(k).await?;
            }
            Op::DeliverAll => net.flush().await?,
            Op::Drop(k) if !net.pool.is_empty() => {
                let k = *k as usize % net.pool.len();
                net.pool.remove(k);
                c.label("lost message");
            }
            Op::Dup(k) if !net.pool.is_empty() => {
                let k = *k as usize % net.pool.len();
                let p = net.pool[k].clone();
                net.pool.push(p);
            }
            Op::Restart(a) => {
                let a = *a as usize % n;
                net.nodes[a].stop().await;
                let node = GNode::start(net.nodes[a].info.clone(), net.nodes[a].ds.clone()).await;
                let old = std::mem::replace(&mut net.nodes[a], node);
                let mut now = net.nodes[a].events()?;
                // There might be a new event about the node itself.
                for (id, e) in &now {
                    if !old.held.contains_key(id) {
                        ensure!(
                            e.category == Category::NodeInfo && e.src == old.id,
                            "a restarted node has the new {e:?}"
                        );
                        net.all.insert(*id, e.clone());
                    }
                }
                let mut both = old.held.clone();
                both.extend(now.clone());
                check_held(&now, &both).map_err(|e| format!("restarted node {a}: {e}"))?;
                std::mem::swap(&mut net.nodes[a].held, &mut now);
                net.nodes[a].reported = old.reported;
                let keys: Vec<U256> = net.nodes[a].held.keys().cloned().collect();
                net.nodes[a].reported.extend(keys);
                while net.nodes[a].out.try_recv().is_ok() {}
                net.lists();
                c.label("restart");
            }
            _ => {}
        }
        net.observe().await?;
    }
    // Without further losses, all connected nodes get the same.
    for round in 0..n + 4 {
        for node in net.nodes.iter_mut() {
            node.timer.emit_msg_out(TimerMessage::Second).unwrap();
        }
        net.observe().await?;
        if round < 3 {
            // What was requested before has to be forgotten first.
            net.pool.clear();
        } else {
            net.flush().await?;
        }
    }
    let mut comp: Vec<usize> = (0..n).collect();
    for _ in 0..n {
        for (a, b) in &net.edges {
            let m = comp[*a].min(comp[*b]);
            comp[*a] = m;
            comp[*b] = m;
        }
    }
    let mut shared = false;
    for i in 0..n {
        let f = comp[i];
        if f != i {
            shared = true;
            let (a, b) = (&net.nodes[f].held, &net.nodes[i].held);
            let diff = |a: &Events, b: &Events| -> Vec<Event> {
                a.iter().filter(|(k, _)| !b.contains_key(k)).map(|(_, v)| v.clone()).take(3).collect()
            };
            ensure!(
                a == b,
                "nodes {f} and {i} don't have the same events: only in {f}: {:?}, only in {i}: {:?}",
                diff(a, b),
                diff(b, a)
            );
        }
        let mut known = Events::new();
        for j in (0..n).filter(|j| comp[*j] == f) {
            for id in &net.nodes[j].reported {
                known.insert(*id, net.all[id].clone());
            }
        }
        check_held(&net.nodes[i].held, &known).map_err(|e| format!("node {i} at the end: {e}"))?;
    }
    // And then nothing is transferred any more.
    net.transferred = 0;
    for node in net.nodes.iter_mut() {
        node.timer.emit_msg_out(TimerMessage::Second).unwrap();
    }
    net.observe().await?;
    net.flush().await?;
    ensure!(
        net.transferred == 0,
        "{} events are sent although everybody has all of them",
        net.transferred
    );
    c.nontrivial(shared && net.all.len() > n);
    c.count("events", net.all.len() as u64);
    c.label_if(net.nodes[0].held.len() < net.all.len(), "dropped old events");
    Ok(())
}

fn run_net(x: &In, c: &mut Case) -> TestResult {
    let r = block_on(async {
        let n = x.nodes as usize;
        let mut nodes = vec![];
        for i in 0..n {
            let mut info = NodeConfig::new().info;
            info.name = format!("node {i}");
            info.pubkey = nid(i as u8).as_ref().to_vec();
            nodes.push(GNode::start(info, MemDs::default()).await);
        }
        let edges = x
            .edges
            .iter()
            .map(|(a, b)| (*a as usize % n, *b as usize % n))
            .filter(|(a, b)| a != b)
            .map(|(a, b)| (a.min(b), a.max(b)))
            .collect();
        let mut net = GNet {
            nodes,
            edges,
            pool: vec![],
            all: Events::new(),
            order: x.order.clone(),
            oi: 0,
            transferred: 0,
        };
        let r = run_ops(x, &mut net, c).await;
        for n in net.nodes.iter_mut() {
            n.stop().await;
        }
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

pub fn run_events(ctx: &mut Ctx) {
    ctx.sub(
        Spec {
            name: "events",
            rule: "up to 40 additions, repetitions and bulks of events with equal, negative and extreme times, then once more in another order; non-trivial: not all events can be kept",
            quick: 8_000,
            thorough: 400_000,
            max_s: 60,
        },
        vec![],
        strat_store,
        run_store,
    );
    ctx.sub(
        Spec {
            name: "saved",
            rule: "2 to 5 running nodes which get events of each other and of the application, and what a restart would give after each step; non-trivial: at least two connected nodes and one event other than the nodes' own",
            quick: 1_000,
            thorough: 50_000,
            max_s: 30,
        },
        vec![],
        strat_net,
        run_net,
    );
}

pub fn run_gossip(ctx: &mut Ctx) {
    ctx.assume("a node's own information is written with the real time, all other times are generated");
    ctx.sub(
        Spec {
            name: "gossip",
            rule: "2 to 5 nodes with any connections, adding events, losing, repeating and reordering messages, connecting, disconnecting and restarting; non-trivial: at least two connected nodes and one event other than the nodes' own",
            quick: 3_000,
            thorough: 150_000,
            max_s: 70,
        },
        vec![],
        strat_net,
        run_net,
    );
}
