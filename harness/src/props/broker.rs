//! C20: the brokers which connect all modules.

use crate::fw::{block_on, take_panics, Case, Ctx, Spec, TestResult};
use crate::gen::u256;
use crate::{ensure, ensure_eq};
use flarch::broker::{Broker, Destination, SubsystemHandler};
use flmacro::platform_async_trait;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Hop {
    Link(usize),
    /// The k-th reply of a handler
    Reply(usize, usize),
}

/// Where it started, its number, and how it got here
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct M {
    start: (usize, bool),
    path: Vec<Hop>,
    nbr: usize,
}

impl M {
    fn via(&self, h: Hop) -> M {
        let mut m = self.clone();
        m.path.push(h);
        m
    }
    fn replies(&self) -> usize {
        self.path.iter().filter(|h| matches!(h, Hop::Reply(..))).count()
    }
}

type B = Broker<M, M>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dst {
    All,
    NoTap,
    Handled(u8),
    Forwarded(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// To which broker, in or out, with which handle
    Emit(u8, bool, Dst, u8),
    Yield(u8),
    Idle,
    Tap { b: u8, out: bool, sync: bool },
    Handler { b: u8, fan: u8, every: u8, delay: u8 },
    /// Between two brokers, from in or out, to in or out, without these messages
    Link { from: u8, to: u8, out: bool, to_out: bool, skip: u8 },
    /// Both directions in one
    Both { from: u8, to: u8, direct: bool, skip: u8 },
    Remove(u8),
    DropTap(u8),
    Clone(u8),
    DropClone(u8),
    Settle(Vec<u8>),
    /// A message which is settled
    SettleMsg(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    brokers: u8,
    ops: Vec<Op>,
    /// Only links to brokers with higher numbers
    acyclic: bool,
    last: Vec<(u8, bool)>,
}

fn strat() -> BoxedStrategy<In> {
    let b = any::<u8>;
    let t = any::<bool>;
    let dst = prop_oneof![
        6 => Just(Dst::All),
        1 => Just(Dst::NoTap),
        1 => b().prop_map(Dst::Handled),
        1 => b().prop_map(Dst::Forwarded),
    ];
    (
        1u8..6,
        prop::collection::vec(
            prop_oneof![
                12 => (b(), t(), dst, b()).prop_map(|(n, o, d, c)| Op::Emit(n, o, d, c)),
                2 => (1u8..20).prop_map(Op::Yield),
                1 => Just(Op::Idle),
                4 => (b(), t(), t()).prop_map(|(b, out, sync)| Op::Tap { b, out, sync }),
                3 => (b(), 0u8..3, 1u8..4, prop_oneof![2 => Just(0u8), 1 => 1u8..20])
                    .prop_map(|(b, fan, every, delay)| Op::Handler { b, fan, every, delay }),
                4 => (b(), b(), t(), t(), 0u8..8)
                    .prop_map(|(from, to, out, to_out, skip)| Op::Link { from, to, out, to_out, skip }),
                2 => (b(), b(), t(), 0u8..8)
                    .prop_map(|(from, to, direct, skip)| Op::Both { from, to, direct, skip }),
                2 => b().prop_map(Op::Remove),
                1 => b().prop_map(Op::DropTap),
                1 => b().prop_map(Op::Clone),
                1 => b().prop_map(Op::DropClone),
                2 => prop::collection::vec(b(), 1..4).prop_map(Op::Settle),
                1 => (b(), t()).prop_map(|(n, o)| Op::SettleMsg(n, o)),
            ],
            1..50,
        ),
        prop::bool::weighted(0.4),
        prop::collection::vec((b(), t()), 0..6),
    )
        .prop_map(|(brokers, ops, acyclic, last)| In { brokers, ops, acyclic, last })
        .boxed()
}

struct Handler {
    id: usize,
    fan: usize,
    every: usize,
    delay: u64,
    seen: Arc<Mutex<Vec<M>>>,
}

const MAX_REPLIES: usize = 2;

fn replies(id: usize, fan: usize, every: usize, m: &M) -> Vec<M> {
    if m.replies() >= MAX_REPLIES || m.nbr % every != 0 {
        return vec![];
    }
    (0..fan).map(|k| m.via(Hop::Reply(id, k))).collect()
}

fn passes(skip: u8, m: &M) -> bool {
    m.nbr % 5 != skip as usize
}

fn translate(link: usize, skip: u8) -> Box<dyn Fn(M) -> Option<M> + Send + Sync> {
    Box::new(move |m: M| passes(skip, &m).then(|| m.via(Hop::Link(link))))
}

#[platform_async_trait()]
impl SubsystemHandler<M, M> for Handler {
    async fn messages(&mut self, msgs: Vec<M>) -> Vec<M> {
        let mut out = vec![];
        for m in msgs {
            if self.delay > 0 {
                tokio::time::sleep(Duration::from_millis(self.delay)).await;
            }
            out.extend(replies(self.id, self.fan, self.every, &m));
            self.seen.lock().unwrap().push(m);
        }
        out
    }
}

enum Rx {
    Async(UnboundedReceiver<M>),
    Sync(std::sync::mpsc::Receiver<M>),
    None,
}

impl Rx {
    /// All messages, and whether it's closed
    fn read(&mut self) -> (Vec<M>, bool) {
        let mut l = vec![];
        match self {
            Rx::Async(r) => loop {
                match r.try_recv() {
                    Ok(m) => l.push(m),
                    Err(e) => return (l, e == tokio::sync::mpsc::error::TryRecvError::Disconnected),
                }
            },
            Rx::Sync(r) => loop {
                match r.try_recv() {
                    Ok(m) => l.push(m),
                    Err(e) => return (l, e == std::sync::mpsc::TryRecvError::Disconnected),
                }
            },
            Rx::None => (l, false),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Tap(bool),
    Handler { fan: usize, every: usize },
    Link { out: bool, to: usize, to_out: bool, skip: u8 },
}

/// Whether it must be delivered, where it started, and whether it visits every broker once
#[derive(Clone, Copy, Debug)]
struct Want {
    must: bool,
    start: usize,
    simple: bool,
}

struct Sub {
    b: usize,
    /// The number in the broker
    nbr: usize,
    kind: Kind,
    alive: bool,
    /// Nobody listens anymore
    deaf: bool,
    rx: Rx,
    seen: Arc<Mutex<Vec<M>>>,
    want: BTreeMap<M, Want>,
    got: Vec<M>,
}

struct Net {
    brokers: Vec<Vec<B>>,
    subs: Vec<Sub>,
    nbr: usize,
    work: usize,
    acyclic: bool,
}

#[derive(Clone)]
struct Trip {
    m: M,
    out: bool,
    tap: bool,
    handled: Option<usize>,
    trail: Vec<usize>,
    visited: Vec<usize>,
    want: Want,
}

/// More than so many deliveries are too much for one case
const MAX_WORK: usize = 2000;

impl Net {
    fn new(n: usize, acyclic: bool) -> Self {
        Net {
            brokers: (0..n).map(|_| vec![Broker::new()]).collect(),
            subs: vec![],
            nbr: 0,
            work: 0,
            acyclic,
        }
    }

    fn b(&self, b: u8) -> usize {
        b as usize % self.brokers.len()
    }

    fn broker(&mut self, b: usize) -> &mut B {
        self.brokers[b].last_mut().unwrap()
    }

    fn has_incoming(&self, b: usize) -> bool {
        self.subs
            .iter()
            .any(|s| s.alive && matches!(s.kind, Kind::Link { to, .. } if to == b))
    }

    /// What the message has to do at this broker
    fn deliver(&mut self, b: usize, mut t: Trip) {
        self.work += 1;
        if self.work > MAX_WORK {
            return;
        }
        let again = t.trail.contains(&b);
        if again {
            // Nobody says what has to happen to a message which comes back.
            t.want.must = false;
        }
        if t.visited.last() != Some(&b) {
            t.want.simple &= !t.visited.contains(&b);
            t.visited.push(b);
        }
        let mut next = vec![];
        for (i, s) in self.subs.iter_mut().enumerate() {
            if s.b != b || !s.alive {
                continue;
            }
            match s.kind {
                Kind::Tap(out) => {
                    if out == t.out && t.tap {
                        s.want.insert(t.m.clone(), t.want);
                    }
                }
                Kind::Handler { fan, every } => {
                    if !t.out && t.handled != Some(s.nbr) {
                        s.want.insert(t.m.clone(), t.want);
                        for m in replies(i, fan, every, &t.m) {
                            next.push((
                                b,
                                Trip {
                                    m,
                                    out: true,
                                    tap: true,
                                    handled: None,
                                    trail: vec![],
                                    ..t.clone()
                                },
                            ));
                        }
                    }
                }
                Kind::Link { out, to, to_out, skip } => {
                    if out == t.out && !again && passes(skip, &t.m) {
                        let mut trail = t.trail.clone();
                        trail.push(b);
                        next.push((
                            to,
                            Trip {
                                m: t.m.via(Hop::Link(i)),
                                out: to_out,
                                tap: true,
                                handled: None,
                                trail,
                                ..t.clone()
                            },
                        ));
                    }
                }
            }
        }
        for (b, t) in next {
            self.deliver(b, t);
        }
    }

    /// How often it would be delivered
    fn too_much(&self) -> bool {
        self.work > MAX_WORK
    }

    fn prepare(&mut self, b: usize, out: bool, dst: &Dst) -> (M, Destination) {
        self.nbr += 1;
        let m = M { start: (b, out), path: vec![], nbr: self.nbr };
        let handlers: Vec<usize> = self
            .subs
            .iter()
            .filter(|s| s.b == b && matches!(s.kind, Kind::Handler { .. }))
            .map(|s| s.nbr)
            .collect();
        let (mut tap, mut handled) = (true, None);
        let dest = match dst {
            Dst::All => Destination::All,
            Dst::NoTap => {
                tap = false;
                Destination::NoTap
            }
            Dst::Handled(i) => {
                let h = match handlers.len() {
                    0 => 1000,
                    n => handlers[*i as usize % n],
                };
                handled = Some(h);
                Destination::Handled(h)
            }
            Dst::Forwarded(i) => Destination::Forwarded((0..*i as u64 % 4).map(u256).collect()),
        };
        self.deliver(
            b,
            Trip {
                m: m.clone(),
                out,
                tap,
                handled,
                trail: vec![],
                visited: vec![],
                want: Want { must: true, start: b, simple: true },
            },
        );
        (m, dest)
    }

    fn emit(&mut self, b: usize, out: bool, dst: &Dst, handle: usize) {
        let (m, dest) = self.prepare(b, out, dst);
        let n = self.brokers[b].len();
        let h = &mut self.brokers[b][handle % n];
        match out {
            true => h.emit_msg_out_dest(dest, m).unwrap(),
            false => h.emit_msg_in_dest(dest, m).unwrap(),
        }
    }

    fn add(&mut self, b: usize, nbr: usize, kind: Kind, rx: Rx, seen: Arc<Mutex<Vec<M>>>) {
        self.subs.push(Sub {
            b,
            nbr,
            kind,
            alive: true,
            deaf: false,
            rx,
            seen,
            want: BTreeMap::new(),
            got: vec![],
        });
    }

    fn read(&mut self) {
        for s in &mut self.subs {
            match s.kind {
                Kind::Handler { .. } => s.got.extend(std::mem::take(&mut *s.seen.lock().unwrap())),
                _ => s.got.extend(s.rx.read().0),
            }
        }
    }

    /// Nothing wrong arrived, and everything which had to arrive
    fn check(&mut self, all: impl Fn(&Want) -> bool, when: &str) -> TestResult {
        self.read();
        if self.too_much() {
            return Ok(());
        }
        for (i, s) in self.subs.iter().enumerate() {
            if s.deaf {
                continue;
            }
            let mut last: BTreeMap<(&(usize, bool), &Vec<Hop>), usize> = BTreeMap::new();
            let mut have = BTreeSet::new();
            for m in &s.got {
                ensure!(
                    s.want.contains_key(m),
                    "{when}: {m:?} isn't for {i}, {:?} of broker {}",
                    s.kind,
                    s.b
                );
                ensure!(
                    have.insert(m),
                    "{when}: {m:?} arrived twice at {i}, {:?} of broker {}",
                    s.kind,
                    s.b
                );
                if let Some(l) = last.insert((&m.start, &m.path), m.nbr) {
                    ensure!(
                        l < m.nbr,
                        "{when}: {m:?} arrived after number {l} at {i}, {:?} of broker {}",
                        s.kind,
                        s.b
                    );
                }
            }
            for (m, w) in &s.want {
                ensure!(
                    !w.must || !all(w) || have.contains(m),
                    "{when}: {m:?} didn't arrive at {i}, {:?} of broker {}",
                    s.kind,
                    s.b
                );
            }
        }
        Ok(())
    }

    async fn idle(&mut self) -> TestResult {
        tokio::time::sleep(Duration::from_secs(3600)).await;
        self.check(|_| true, "in the end")
    }

    /// With messages on their way from other brokers, nobody knows when a change happens.
    async fn before_change(&mut self, b: usize) -> TestResult {
        if self.has_incoming(b) {
            self.idle().await?;
        }
        Ok(())
    }

    async fn link(&mut self, l: &Op) -> TestResult {
        let (Op::Link { from, to, .. } | Op::Both { from, to, .. }) = l else {
            unreachable!()
        };
        let (mut from, mut to) = (self.b(*from), self.b(*to));
        if self.acyclic {
            if from == to {
                return Ok(());
            }
            (from, to) = (from.min(to), from.max(to));
        }
        let links = self
            .subs
            .iter()
            .filter(|s| s.alive && matches!(s.kind, Kind::Link { .. }))
            .count();
        if links > 8 {
            return Ok(());
        }
        self.before_change(from).await?;
        let i = self.subs.len();
        let dest = self.brokers[to][0].clone();
        match l {
            Op::Link { out, to_out, skip, .. } => {
                let tr = translate(i, *skip);
                let f = self.broker(from);
                let nbr = match (out, to_out) {
                    (true, true) => f.add_translator_o_to(dest, tr).await,
                    (true, false) => f.add_translator_o_ti(dest, tr).await,
                    (false, true) => f.add_translator_i_to(dest, tr).await,
                    (false, false) => f.add_translator_i_ti(dest, tr).await,
                }
                .unwrap();
                let kind = Kind::Link { out: *out, to, to_out: *to_out, skip: *skip };
                self.add(from, nbr, kind, Rx::None, Arc::default());
            }
            Op::Both { direct, skip, .. } => {
                if self.acyclic {
                    return Ok(());
                }
                self.before_change(to).await?;
                let (there, back) = (translate(i, *skip), translate(i + 1, *skip));
                let f = self.broker(from);
                let nbr = match direct {
                    true => f.add_translator_direct(dest, there, back).await,
                    false => f.add_translator_link(dest, there, back).await,
                }
                .unwrap();
                let kind = Kind::Link { out: true, to, to_out: *direct, skip: *skip };
                self.add(from, nbr, kind, Rx::None, Arc::default());
                let kind = Kind::Link { out: !direct, to: from, to_out: false, skip: *skip };
                // The number of the other one isn't known
                self.add(to, usize::MAX, kind, Rx::None, Arc::default());
                self.idle().await?;
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    async fn remove(&mut self, i: usize) -> TestResult {
        let b = self.subs[i].b;
        if self.subs[i].nbr == usize::MAX {
            return Ok(());
        }
        self.before_change(b).await?;
        let nbr = self.subs[i].nbr;
        let f = self.broker(b).remove_subsystem(nbr);
        ensure!(
            tokio::time::timeout(Duration::from_secs(600), f).await.is_ok(),
            "removing a subsystem doesn't end"
        );
        self.subs[i].alive = false;
        if matches!(self.subs[i].kind, Kind::Link { .. }) {
            // Settling doesn't follow this link anymore
            return self.idle().await;
        }
        if !self.subs[i].deaf {
            // Everything is there, and nothing will come anymore
            self.read();
            let (more, closed) = self.subs[i].rx.read();
            ensure_eq!(more, vec![], "messages");
            if matches!(self.subs[i].kind, Kind::Tap(_)) {
                ensure!(closed, "a removed tap isn't closed");
            } else {
                ensure_eq!(Arc::strong_count(&self.subs[i].seen), 1, "users of a removed handler");
            }
        }
        Ok(())
    }

    async fn settle(&mut self, l: &[usize]) -> TestResult {
        let all = l.iter().map(|b| {
            let mut h = self.brokers[*b][0].clone();
            async move { h.settle(vec![]).await.unwrap() }
        });
        let all: Vec<_> = all.collect();
        let f = futures::future::join_all(all);
        ensure!(
            tokio::time::timeout(Duration::from_secs(600), f).await.is_ok(),
            "settling {} brokers doesn't end",
            l.len()
        );
        let l = l.to_vec();
        self.check(|w| w.simple && l.contains(&w.start), "once settled")
    }

    async fn op(&mut self, op: &Op) -> TestResult {
        match op {
            Op::Emit(b, out, dst, c) => {
                let b = self.b(*b);
                self.emit(b, *out, dst, *c as usize);
            }
            Op::Yield(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
            }
            Op::Idle => self.idle().await?,
            Op::Tap { b, out, sync } => {
                let b = self.b(*b);
                self.before_change(b).await?;
                let h = self.broker(b);
                let (rx, nbr) = match (out, sync) {
                    (true, true) => h.get_tap_out_sync().await.map(|(r, n)| (Rx::Sync(r), n)),
                    (true, false) => h.get_tap_out().await.map(|(r, n)| (Rx::Async(r), n)),
                    (false, true) => h.get_tap_in_sync().await.map(|(r, n)| (Rx::Sync(r), n)),
                    (false, false) => h.get_tap_in().await.map(|(r, n)| (Rx::Async(r), n)),
                }
                .unwrap();
                self.add(b, nbr, Kind::Tap(*out), rx, Arc::default());
            }
            Op::Handler { b, fan, every, delay } => {
                let b = self.b(*b);
                if self.subs.iter().filter(|s| matches!(s.kind, Kind::Handler { .. })).count() > 5 {
                    return Ok(());
                }
                self.before_change(b).await?;
                let seen: Arc<Mutex<Vec<M>>> = Arc::default();
                let h = Handler {
                    id: self.subs.len(),
                    fan: *fan as usize,
                    every: *every as usize,
                    delay: *delay as u64,
                    seen: seen.clone(),
                };
                let kind = Kind::Handler { fan: h.fan, every: h.every };
                let nbr = self.broker(b).add_handler(Box::new(h)).await.unwrap();
                self.add(b, nbr, kind, Rx::None, seen);
            }
            Op::Link { .. } | Op::Both { .. } => self.link(op).await?,
            Op::Remove(i) => {
                let l: Vec<usize> = (0..self.subs.len()).filter(|i| self.subs[*i].alive).collect();
                if !l.is_empty() {
                    self.remove(l[*i as usize % l.len()]).await?;
                }
            }
            Op::DropTap(i) => {
                let l: Vec<usize> = (0..self.subs.len())
                    .filter(|i| matches!(self.subs[*i].kind, Kind::Tap(_)) && !self.subs[*i].deaf)
                    .collect();
                if !l.is_empty() {
                    let s = &mut self.subs[l[*i as usize % l.len()]];
                    s.deaf = true;
                    s.rx = Rx::None;
                }
            }
            Op::Clone(b) => {
                let b = self.b(*b);
                if self.brokers[b].len() < 4 {
                    let c = self.brokers[b][0].clone();
                    self.brokers[b].push(c);
                }
            }
            Op::DropClone(b) => {
                let b = self.b(*b);
                if self.brokers[b].len() > 1 {
                    // The first one, which also made the others
                    self.brokers[b].remove(0);
                }
            }
            Op::Settle(l) => {
                let l: Vec<usize> = l.iter().map(|b| self.b(*b)).collect();
                self.settle(&l).await?;
            }
            Op::SettleMsg(b, out) => {
                let b = self.b(*b);
                let (m, dest) = self.prepare(b, *out, &Dst::All);
                let h = self.broker(b);
                let t = Duration::from_secs(600);
                let r = match out {
                    true => tokio::time::timeout(t, h.settle_msg_out_dest(dest, m)).await,
                    false => tokio::time::timeout(t, h.settle_msg_in_dest(dest, m)).await,
                };
                ensure!(r.is_ok(), "settling a message doesn't end");
                self.check(|w| w.simple && w.start == b, "once the message is settled")?;
            }
        }
        Ok(())
    }

    /// Without any link back, a broker ends with its last handle, but not before all messages
    /// are delivered.
    async fn end(&mut self, last: &[(u8, bool)]) -> TestResult {
        for (b, out) in last {
            let b = self.b(*b);
            self.emit(b, *out, &Dst::All, 0);
        }
        if self.too_much() {
            return Ok(());
        }
        if !self.acyclic {
            self.idle().await?;
            for b in 0..self.brokers.len() {
                for i in 0..60 {
                    self.broker(b).remove_subsystem(i).await.unwrap();
                }
            }
            for s in self.subs.iter_mut() {
                s.alive = false;
            }
        }
        for b in self.brokers.iter_mut() {
            b.clear();
        }
        tokio::time::sleep(Duration::from_secs(3600)).await;
        self.check(|_| true, "in the end")?;
        for (i, s) in self.subs.iter_mut().enumerate() {
            match s.kind {
                Kind::Tap(_) if !s.deaf => {
                    ensure!(s.rx.read().1, "tap {i} isn't closed although its broker is gone")
                }
                Kind::Handler { .. } => ensure_eq!(
                    Arc::strong_count(&s.seen),
                    1,
                    "users of the handler {i} although its broker is gone"
                ),
                _ => {}
            }
        }
        Ok(())
    }
}

fn run_case(x: &In, c: &mut Case) -> TestResult {
    take_panics();
    let r: TestResult = block_on(async {
        let mut n = Net::new(x.brokers as usize, x.acyclic);
        let mut r = Ok(());
        for op in &x.ops {
            if n.too_much() {
                break;
            }
            r = n.op(op).await;
            if r.is_err() {
                break;
            }
        }
        if r.is_ok() && !n.too_much() {
            r = n.end(&x.last).await;
        }
        let links = n.subs.iter().filter(|s| matches!(s.kind, Kind::Link { .. })).count();
        let arrived: usize = n.subs.iter().map(|s| s.got.len()).sum();
        let far = n.subs.iter().flat_map(|s| &s.got).map(|m| m.path.len()).max().unwrap_or(0);
        let optional: usize =
            n.subs.iter().flat_map(|s| s.want.values()).filter(|w| !w.must).count();
        c.nontrivial(!n.too_much() && links > 0 && arrived > 2 && far > 0);
        c.count("delivered messages", arrived as u64);
        c.label_if(far > 2, "a message made 3 steps or more");
        c.label_if(optional > 0, "a message came back");
        c.label_if(n.acyclic, "without cycles");
        c.label_if(n.too_much(), "too many messages");
        r
    });
    r?;
    let p = take_panics();
    ensure!(p.is_empty(), "panics: {p:?}");
    Ok(())
}

/// Several threads use the brokers at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    brokers: u8,
    /// From, to, from out, to out, skip
    links: Vec<(u8, u8, bool, bool, u8)>,
    handlers: Vec<(u8, u8, u8)>,
    /// What every thread sends to which broker
    senders: Vec<Vec<(u8, bool)>>,
}

fn threads_strat() -> BoxedStrategy<Threads> {
    let b = any::<u8>;
    let t = any::<bool>;
    (
        1u8..6,
        prop::collection::vec((b(), b(), t(), t(), 0u8..8), 0..8),
        prop::collection::vec((b(), 0u8..3, 1u8..4), 0..4),
        prop::collection::vec(prop::collection::vec((b(), t()), 0..30), 1..5),
    )
        .prop_map(|(brokers, links, handlers, senders)| Threads {
            brokers,
            links,
            handlers,
            senders,
        })
        .boxed()
}

fn run_threads(x: &Threads, c: &mut Case) -> TestResult {
    take_panics();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .enable_time()
        .build()
        .unwrap();
    let r = rt.block_on(async {
        let mut n = Net::new(x.brokers as usize, true);
        for b in 0..x.brokers {
            for out in [false, true] {
                n.op(&Op::Tap { b, out, sync: false }).await?;
            }
        }
        for (b, fan, every) in &x.handlers {
            n.op(&Op::Handler { b: *b, fan: *fan, every: *every, delay: 0 }).await?;
        }
        // The highest first, so that nobody has to wait
        let mut links = x.links.clone();
        links.sort_by_key(|l| std::cmp::Reverse((l.0 % x.brokers).min(l.1 % x.brokers)));
        for (from, to, out, to_out, skip) in links {
            let l = Op::Link { from, to, out, to_out, skip };
            if n.b(from) == n.b(to) {
                continue;
            }
            let f = n.b(from).min(n.b(to));
            if !n.has_incoming(f) {
                n.op(&l).await?;
            }
        }
        let mut all = vec![];
        for s in &x.senders {
            let mut msgs = vec![];
            for (b, out) in s {
                let b = n.b(*b);
                let (m, _) = n.prepare(b, *out, &Dst::All);
                msgs.push((b, *out, m));
            }
            let mut handles: Vec<B> = n.brokers.iter().map(|b| b[0].clone()).collect();
            all.push(async move {
                for (i, (b, out, m)) in msgs.into_iter().enumerate() {
                    let mut c = handles[b].clone();
                    if i % 2 == 0 {
                        handles[b] = c.clone();
                    }
                    match out {
                        true => c.emit_msg_out(m).unwrap(),
                        false => c.emit_msg_in(m).unwrap(),
                    }
                    if i % 5 == 3 {
                        c.settle(vec![]).await.unwrap();
                    }
                }
            });
        }
        if n.too_much() {
            return Ok(());
        }
        n.brokers.clear();
        let all: Vec<_> = all.into_iter().map(tokio::spawn).collect();
        for t in all {
            t.await.unwrap();
        }
        // Now all brokers end, and close their taps
        let mut far = 0;
        for (i, s) in n.subs.iter_mut().enumerate() {
            if let Rx::Async(r) = &mut s.rx {
                loop {
                    match tokio::time::timeout(Duration::from_secs(30), r.recv()).await {
                        Ok(Some(m)) => {
                            far = far.max(m.path.len());
                            s.got.push(m)
                        }
                        Ok(None) => break,
                        Err(_) => {
                            return Err(format!(
                                "tap {i} isn't closed although all handles are gone"
                            ))
                        }
                    }
                }
            }
        }
        c.nontrivial(n.nbr > 2 && x.senders.len() > 1 && far > 0);
        c.label_if(far > 2, "a message made 3 steps or more");
        // A sender only knows the order of its own messages
        let mut from = 1;
        for s in &x.senders {
            let to = from + s.len();
            for (i, sub) in n.subs.iter().enumerate() {
                let mut last: BTreeMap<(&(usize, bool), &Vec<Hop>), usize> = BTreeMap::new();
                for m in sub.got.iter().filter(|m| (from..to).contains(&m.nbr)) {
                    if let Some(l) = last.insert((&m.start, &m.path), m.nbr) {
                        ensure!(l < m.nbr, "{m:?} arrived after number {l} at {i}");
                    }
                }
            }
            from = to;
        }
        for s in n.subs.iter_mut() {
            s.got.extend(std::mem::take(&mut *s.seen.lock().unwrap()));
            s.got.sort_by_key(|m| m.nbr);
        }
        n.check(|_| true, "in the end")
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    r
}

pub fn run_broker(ctx: &mut Ctx) {
    ctx.assume("handlers and translations do not panic, and no handler waits for its own broker");
    ctx.sub(
        Spec {
            name: "network",
            rule: "messages arrived, and at least one came over a link or from a handler",
            quick: 60000,
            thorough: 2000000,
            max_s: 120,
        },
        vec![],
        strat,
        run_case,
    );
    ctx.sub(
        Spec {
            name: "threads",
            rule: "several threads sent, and at least one message came over a link or from a handler",
            quick: 3000,
            thorough: 200000,
            max_s: 60,
        },
        vec![],
        threads_strat,
        run_threads,
    );
}
