//! C19: texts get through the connection between two nodes as they are.

use crate::fw::{block_on, idle, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::broker::Broker;
use flarch::web_rtc::messages::{
    ConnectionStateMap, DataChannelState, PeerMessage, WebRTCInput, WebRTCOutput, WebRTCSpawner,
};
use flarch::web_rtc::node_connection::{Direction, NCInput, NCOutput, NodeConnection};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::UnboundedReceiver;

pub const PART: usize = 16384;

/// A text which is short in the replay file
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Text {
    Short(String),
    /// Some characters, followed by the same ones again and again, up to that many characters
    Long(String, String, u32),
}

impl Text {
    pub fn text(&self) -> String {
        match self {
            Text::Short(s) => s.clone(),
            Text::Long(a, b, n) => {
                let b = if b.is_empty() { "x" } else { b };
                a.chars().chain(b.chars().cycle()).take(*n as usize).collect()
            }
        }
    }
}

pub fn text() -> BoxedStrategy<Text> {
    let len = prop_oneof![
        3 => (1u32..5, -3i32..4, 1u32..5).prop_map(|(n, d, q)| (n * 16384 / q) as i32 + d).prop_map(|n| n as u32),
        1 => 0u32..120_000,
    ];
    prop_oneof![
        3 => "[ -~]{0,20}",
        2 => "(?s).{0,30}",
        2 => prop_oneof![
            Just(""), Just("{\"data\":\"x\"}"), Just("- a: 1\n  b: null\n"), Just("---\n"), Just("~"),
            Just("\u{85}"), Just("a\u{2028}b\u{2029}c"), Just("\u{feff}"), Just("\r\n\t\0\u{7f}\u{1b}"), Just("\\u0041\\"), Just(" a "), Just("\"'")
        ].prop_map(String::from),
    ]
    .prop_map(Text::Short)
    .boxed()
    .prop_union(
        ("(?s).{0,5}", prop_oneof![2 => "[ -~]{1,10}", 2 => "(?s).{1,4}", 1 => Just("😀".to_string()), 1 => Just("\u{1}".to_string()), 1 => Just("é\n".to_string())], len)
            .prop_map(|(a, b, n)| Text::Long(a, b, n))
            .boxed(),
    )
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Text(bool, Text),
    /// Both ends of a channel get open, the given one first
    Open(bool, bool),
    /// One end of a channel
    OpenOne(bool, bool),
    Close(bool),
    State(bool, bool, bool),
    Deliver(bool, bool, u8),
    Setup(bool, bool, u8),
    Garbage(bool, bool, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    ops: Vec<Op>,
}

fn strat() -> BoxedStrategy<In> {
    let b = any::<bool>;
    prop::collection::vec(
        prop_oneof![
            6 => (b(), text()).prop_map(|(a, t)| Op::Text(a, t)),
            3 => (b(), b()).prop_map(|(a, t)| Op::Open(a, t)),
            1 => (b(), b()).prop_map(|(a, t)| Op::OpenOne(a, t)),
            1 => b().prop_map(Op::Close),
            2 => (b(), b(), prop::bool::weighted(0.7)).prop_map(|(a, d, t)| Op::State(a, d, t)),
            3 => (b(), b(), 1u8..6).prop_map(|(a, d, n)| Op::Deliver(a, d, n)),
            1 => (b(), b(), any::<u8>()).prop_map(|(a, d, n)| Op::Setup(a, d, n)),
            1 => (b(), b(), any::<u8>()).prop_map(|(a, d, n)| Op::Garbage(a, d, n)),
        ],
        1..30,
    )
    .prop_map(|ops| In { ops })
    .boxed()
}

fn dir(i: usize) -> Direction {
    if i == 0 {
        Direction::Incoming
    } else {
        Direction::Outgoing
    }
}

type Rtc = Broker<WebRTCInput, WebRTCOutput>;

/// One end of the connection: the node connection and its two WebRTC connections.
struct End {
    nc: Broker<NCInput, NCOutput>,
    out: UnboundedReceiver<NCOutput>,
    /// incoming, outgoing
    rtc: Vec<(Rtc, UnboundedReceiver<WebRTCInput>)>,
    open: [bool; 2],
    /// Texts which weren't given to a channel yet
    queue: Vec<String>,
}

impl End {
    async fn new() -> Self {
        let made: Arc<Mutex<Vec<Rtc>>> = Arc::default();
        let m = made.clone();
        let spawner: WebRTCSpawner = Box::new(move || {
            let b: Rtc = Broker::new();
            m.lock().unwrap().push(b.clone());
            Box::new(Box::pin(async move { Ok(b) }))
        });
        let mut nc = NodeConnection::new(&spawner).await.unwrap();
        let out = nc.get_tap_out().await.unwrap().0;
        let mut rtc = vec![];
        let list = made.lock().unwrap().clone();
        for mut b in list {
            let t = b.get_tap_in().await.unwrap().0;
            rtc.push((b, t));
        }
        Self {
            nc,
            out,
            rtc,
            open: [false; 2],
            queue: vec![],
        }
    }

    /// Finds out which of the two is the incoming one
    async fn sort(&mut self) -> TestResult {
        ensure_eq!(self.rtc.len(), 2, "number of WebRTC connections");
        self.nc
            .emit_msg_in(NCInput::Setup(Direction::Incoming, PeerMessage::Init))
            .unwrap();
        idle().await;
        if self.rtc[0].1.try_recv().is_err() {
            self.rtc.swap(0, 1);
            ensure!(
                self.rtc[0].1.try_recv().is_ok(),
                "a setup message doesn't get to the WebRTC connection"
            );
        }
        Ok(())
    }

    async fn stop(&mut self) {
        unlink(&mut self.nc).await;
        for r in &mut self.rtc {
            unlink(&mut r.0).await;
        }
    }

    fn outs(&mut self) -> Vec<NCOutput> {
        let mut v = vec![];
        while let Ok(m) = self.out.try_recv() {
            if !matches!(m, NCOutput::Incoming(_) | NCOutput::Outgoing(_)) {
                v.push(m);
            }
        }
        v
    }

    /// The messages given to the WebRTC connections
    fn wire(&mut self) -> Vec<Vec<WebRTCInput>> {
        self.rtc
            .iter_mut()
            .map(|r| {
                let mut v = vec![];
                while let Ok(m) = r.1.try_recv() {
                    v.push(m);
                }
                v
            })
            .collect()
    }

    async fn emit(&mut self, d: usize, m: WebRTCOutput) {
        self.rtc[d].0.emit_msg_out(m).unwrap();
        idle().await;
    }
}

/// One direction of a channel: what is on its way, and which texts should come out of it.
#[derive(Default)]
struct Pipe {
    packets: VecDeque<String>,
    texts: VecDeque<String>,
}

struct Link {
    ends: Vec<End>,
    /// By receiving end and direction there
    pipes: [[Pipe; 2]; 2],
    received: usize,
}

fn state(open: bool) -> ConnectionStateMap {
    ConnectionStateMap {
        data_connection: Some(if open {
            DataChannelState::Open
        } else {
            DataChannelState::Connecting
        }),
        ..Default::default()
    }
}

impl Link {
    /// Takes what end e gives to its channels.
    fn collect(&mut self, e: usize, rest: &[(usize, WebRTCInput)]) -> TestResult {
        let wire = self.ends[e].wire();
        let mut given = vec![];
        let mut other = vec![];
        for (d, msgs) in wire.into_iter().enumerate() {
            for m in msgs {
                match m {
                    WebRTCInput::Text(t) => given.push((d, t)),
                    m => other.push((d, m)),
                }
            }
        }
        ensure_eq!(other, rest.to_vec(), "what the WebRTC connections are told");
        let end = &mut self.ends[e];
        if end.queue.is_empty() || end.open == [false; 2] {
            ensure!(
                given.is_empty(),
                "packets are sent without a text or an open channel: {:?}",
                given.iter().map(|g| (g.0, g.1.len())).collect::<Vec<_>>()
            );
            return Ok(());
        }
        ensure!(
            !given.is_empty(),
            "{} texts are waiting although a channel is open",
            end.queue.len()
        );
        let d = given[0].0;
        ensure!(
            given.iter().all(|g| g.0 == d) && end.open[d],
            "texts are given to channels {:?} which aren't open",
            given.iter().map(|g| g.0).collect::<Vec<_>>()
        );
        for (_, p) in &given {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(p) {
                let l = v["data"].as_str().map(|s| s.len()).unwrap_or(0);
                ensure!(l <= PART, "a part with {l} bytes is too big for WebRTC");
            }
        }
        let texts = std::mem::take(&mut end.queue);
        let pipe = &mut self.pipes[1 - e][1 - d];
        pipe.packets.extend(given.into_iter().map(|g| g.1));
        pipe.texts.extend(texts);
        Ok(())
    }

    async fn deliver(&mut self, e: usize, d: usize, n: usize) -> TestResult {
        for _ in 0..n {
            let Some(p) = self.pipes[e][d].packets.pop_front() else {
                break;
            };
            self.ends[e].emit(d, WebRTCOutput::Text(p)).await;
            for m in self.ends[e].outs() {
                let NCOutput::Text(t) = m else {
                    return Err(format!("{m} after a packet"));
                };
                let Some(want) = self.pipes[e][d].texts.pop_front() else {
                    return Err("a text comes twice, or one which nobody sent".into());
                };
                self.received += 1;
                if t != want {
                    let at = t.chars().zip(want.chars()).position(|(a, b)| a != b);
                    return Err(format!(
                        "another text ({} bytes) comes than was sent ({} bytes), different at {at:?}",
                        t.len(),
                        want.len()
                    ));
                }
            }
            self.collect(e, &[])?;
        }
        if self.pipes[e][d].packets.is_empty() {
            ensure_eq!(
                self.pipes[e][d].texts.len(),
                0,
                "texts which didn't come although all packets arrived"
            );
        }
        Ok(())
    }

    async fn open(&mut self, e: usize, d: usize) -> TestResult {
        self.ends[e].open[d] = true;
        self.ends[e].emit(d, WebRTCOutput::Connected).await;
        ensure_eq!(self.ends[e].outs(), vec![NCOutput::Connected(dir(d))], "when opening");
        self.collect(e, &[])
    }
}

const GARBAGE: [&str; 22] = [
    "",
    "{",
    "{}",
    "null",
    "data",
    "- 1",
    "{\"id\":\"00\",\"data\":\"x\",\"part\":1}",
    "{\"data\":{}}",
    "{\"data\":[\"x\"]}",
    "{\"part\":0,\"total\":1}",
    "{\"id\":\"xx\",\"part\":0,\"total\":1,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":-1,\"total\":1,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":0,\"total\":-1,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":0,\"total\":1e9,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":0,\"total\":0,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":1,\"total\":1,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":5,\"total\":2,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":0,\"total\":18446744073709551615,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":18446744073709551615,\"total\":18446744073709551615,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":0,\"total\":9223372036854775807,\"data\":\"x\"}",
    "{\"id\":\"ID\",\"part\":3,\"total\":4000000000000,\"data\":\"x\"}",
    "&a [*a, *a]",
];

fn garbage(n: u8) -> String {
    let id = format!("{:02x}", n).repeat(32);
    GARBAGE[n as usize % GARBAGE.len()].replace("ID", &id)
}

async fn run_link(x: &In, l: &mut Link, c: &mut Case) -> TestResult {
    let mut sent = 0;
    let mut parts = false;
    for op in &x.ops {
        match op {
            Op::Text(e, t) => {
                let e = *e as usize;
                let t = t.text();
                parts |= t.len() > PART;
                sent += 1;
                l.ends[e].queue.push(t.clone());
                l.ends[e].nc.emit_msg_in(NCInput::Text(t)).unwrap();
                idle().await;
                l.collect(e, &[])?;
            }
            Op::Open(ch, first) => {
                // Channel 0 was started by end 0: it is outgoing there and incoming at end 1
                let ch = *ch as usize;
                for e in [*first as usize, 1 - *first as usize] {
                    let d = (e == ch) as usize;
                    if !l.ends[e].open[d] {
                        l.open(e, d).await?;
                    }
                }
            }
            Op::OpenOne(ch, e) => {
                let (ch, e) = (*ch as usize, *e as usize);
                let d = (e == ch) as usize;
                if !l.ends[e].open[d] {
                    l.open(e, d).await?;
                }
            }
            Op::Close(ch) => {
                let ch = *ch as usize;
                for e in 0..2 {
                    let d = (e == ch) as usize;
                    l.pipes[e][d] = Pipe::default();
                    if l.ends[e].open[d] {
                        l.ends[e].open[d] = false;
                        l.ends[e].emit(d, WebRTCOutput::Disconnected).await;
                        ensure_eq!(
                            l.ends[e].outs(),
                            vec![NCOutput::Disconnected(dir(d))],
                            "when closing"
                        );
                        l.collect(e, &[(d, WebRTCInput::Reset)])?;
                    }
                }
            }
            Op::State(e, d, open) => {
                let (e, d) = (*e as usize, *d as usize);
                l.ends[e].open[d] = *open;
                l.ends[e].emit(d, WebRTCOutput::State(state(*open))).await;
                ensure_eq!(
                    l.ends[e].outs(),
                    vec![NCOutput::State(dir(d), state(*open))],
                    "on a new state"
                );
                l.collect(e, &[])?;
            }
            Op::Deliver(e, d, n) => l.deliver(*e as usize, *d as usize, *n as usize).await?,
            Op::Setup(e, d, n) => {
                let (e, d) = (*e as usize, *d as usize);
                let pm = match n % 4 {
                    0 => PeerMessage::Init,
                    1 => PeerMessage::Offer(format!("offer {n}")),
                    2 => PeerMessage::Answer(format!("answer {n}")),
                    _ => PeerMessage::IceCandidate(format!("ice {n}")),
                };
                if n & 4 == 0 {
                    // A new setup replaces the channel, the other messages don't change it
                    if matches!(pm, PeerMessage::Init | PeerMessage::Offer(_)) {
                        l.ends[e].open[d] = false;
                    }
                    l.ends[e].nc.emit_msg_in(NCInput::Setup(dir(d), pm.clone())).unwrap();
                    idle().await;
                    l.collect(e, &[(d, WebRTCInput::Setup(pm))])?;
                    ensure_eq!(l.ends[e].outs(), vec![], "after a setup message");
                } else {
                    l.ends[e].emit(d, WebRTCOutput::Setup(pm.clone())).await;
                    l.collect(e, &[])?;
                    ensure_eq!(
                        l.ends[e].outs(),
                        vec![NCOutput::Setup(dir(d), pm)],
                        "after a setup message"
                    );
                }
            }
            Op::Garbage(e, d, n) => {
                let (e, d) = (*e as usize, *d as usize);
                l.ends[e].emit(d, WebRTCOutput::Text(garbage(*n))).await;
                l.collect(e, &[])?;
                ensure_eq!(l.ends[e].outs(), vec![], "after the text {}", garbage(*n));
                let p = take_panics();
                ensure!(p.is_empty(), "{p:?} when getting {}", garbage(*n));
            }
        }
    }
    for e in 0..2 {
        for d in 0..2 {
            l.deliver(e, d, usize::MAX).await?;
        }
    }
    // Whatever happened, once both channels are open everything else arrives
    for e in 0..2 {
        for d in 0..2 {
            l.open(e, d).await?;
        }
        l.ends[e].queue.push(format!("last {e}"));
        l.ends[e].nc.emit_msg_in(NCInput::Text(format!("last {e}"))).unwrap();
        idle().await;
        l.collect(e, &[])?;
    }
    for e in 0..2 {
        for d in 0..2 {
            l.deliver(e, d, usize::MAX).await?;
        }
        l.ends[e].nc.emit_msg_in(NCInput::Disconnect).unwrap();
        idle().await;
        l.collect(e, &[(0, WebRTCInput::Disconnect), (1, WebRTCInput::Disconnect)])?;
    }
    c.count("texts", sent);
    c.count("received", l.received as u64);
    c.label_if(parts, "text in parts");
    c.nontrivial(sent > 1 && l.received > 3);
    Ok(())
}

fn run_conn(x: &In, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on(async {
        let mut l = Link {
            ends: vec![End::new().await, End::new().await],
            pipes: Default::default(),
            received: 0,
        };
        for e in &mut l.ends {
            e.sort().await?;
            e.outs();
        }
        let r = run_link(x, &mut l, c).await;
        for e in &mut l.ends {
            e.stop().await;
        }
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mix {
    texts: Vec<Text>,
    order: Vec<u32>,
}

/// The parts of several texts come in any order
fn run_mix(x: &Mix, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on(async {
        let mut a = End::new().await;
        let mut b = End::new().await;
        a.sort().await?;
        b.sort().await?;
        a.emit(1, WebRTCOutput::Connected).await;
        b.emit(0, WebRTCOutput::Connected).await;
        b.emit(1, WebRTCOutput::Connected).await;
        a.outs();
        b.outs();
        let mut packets: Vec<(usize, String)> = vec![];
        let mut left: Vec<usize> = vec![];
        for (i, t) in x.texts.iter().enumerate() {
            a.nc.emit_msg_in(NCInput::Text(t.text())).unwrap();
            idle().await;
            let mut n = 0;
            for m in a.wire().into_iter().flatten() {
                if let WebRTCInput::Text(p) = m {
                    packets.push((i, p));
                    n += 1;
                }
            }
            ensure!(n > 0, "a text isn't sent over an open channel");
            left.push(n);
        }
        c.nontrivial(left.iter().filter(|n| **n > 1).count() > 1);
        let mut o = x.order.iter().cycle();
        while !packets.is_empty() {
            let r = *o.next().unwrap();
            let (i, p) = packets.remove(r as usize % packets.len());
            b.emit((r % 3 == 0) as usize, WebRTCOutput::Text(p)).await;
            left[i] -= 1;
            let want = if left[i] == 0 {
                vec![NCOutput::Text(x.texts[i].text())]
            } else {
                vec![]
            };
            ensure!(
                b.outs() == want,
                "with the last part, a text must come once as it was sent, and not before"
            );
        }
        a.stop().await;
        b.stop().await;
        Ok(())
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

pub fn run_connection(ctx: &mut Ctx) {
    ctx.assume("a WebRTC data channel keeps the order of its messages and loses none until it is closed");
    ctx.sub(
        Spec {
            name: "link",
            rule: "up to 30 texts, openings, closings, states, setup messages and unreadable packets between the two ends of a connection with two channels; non-trivial: more than one text was sent and more than three received",
            quick: 30_000,
            thorough: 1_000_000,
            max_s: 50,
        },
        vec![],
        strat,
        run_conn,
    );
    ctx.sub(
        Spec {
            name: "parts",
            rule: "up to six texts whose parts arrive in any order over both channels; non-trivial: at least two texts had more than one part",
            quick: 15_000,
            thorough: 500_000,
            max_s: 25,
        },
        vec![],
        || {
            (prop::collection::vec(text(), 1..7), prop::collection::vec(any::<u32>(), 1..20))
                .prop_map(|(texts, order)| Mix { texts, order })
        },
        run_mix,
    );
    super::rtc::sub(ctx);
}
