//! C19: two nodes with real WebRTC connections between them.

use super::conn::{text, Text};
use crate::ensure;
use crate::fw::{block_on_io, take_panics, unlink, Case, Ctx, Spec, TestResult};
use flarch::nodeids::{NodeID, U256};
use flarch::web_rtc::connection::ConnectionConfig;
use flarch::web_rtc::messages::PeerMessage;
use flarch::web_rtc::node_connection::{NCInput, NCOutput};
use flarch::web_rtc::web_rtc_setup::web_rtc_spawner;
use flarch::web_rtc::{BrokerWebRTCConn, WebRTCConn, WebRTCConnIn, WebRTCConnOut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;
use tokio::time::{timeout_at, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    /// Which ones start a connection, and after how many events
    first: bool,
    both: Option<u8>,
    /// The end, the text, and after how many events it is given
    texts: Vec<(bool, Text, u8)>,
    /// Hostile setup messages once everything arrived
    garbage: Vec<(bool, bool, u8)>,
    again: bool,
}

fn strat() -> BoxedStrategy<In> {
    (
        any::<bool>(),
        prop::option::weighted(0.3, 0u8..25),
        prop::collection::vec((any::<bool>(), text(), 0u8..40), 1..10),
        prop::collection::vec((any::<bool>(), any::<bool>(), any::<u8>()), 0..4),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(first, both, texts, garbage, again)| In { first, both, texts, garbage, again })
        .boxed()
}

struct End {
    conn: BrokerWebRTCConn,
    out: UnboundedReceiver<WebRTCConnOut>,
    peer: NodeID,
    connected: bool,
    got: Vec<String>,
    sent: Vec<String>,
}

impl End {
    async fn new(peer: NodeID) -> Self {
        let cfg = ConnectionConfig::from_signal("ws://localhost");
        let mut conn = WebRTCConn::new(web_rtc_spawner(cfg)).await.unwrap();
        let out = conn.get_tap_out().await.unwrap().0;
        Self { conn, out, peer, connected: false, got: vec![], sent: vec![] }
    }

    fn give(&mut self, m: NCInput) {
        self.conn.emit_msg_in(WebRTCConnIn::Message(self.peer, m)).unwrap();
    }

    fn text(&mut self, t: String) {
        self.sent.push(t.clone());
        self.give(NCInput::Text(t));
    }
}

/// Whether the WebRTC library connects two ends here at all, without the code under test.
async fn library_connects() -> Option<()> {
    use webrtc::api::setting_engine::SettingEngine;
    use webrtc::{api::APIBuilder, ice::mdns::MulticastDnsMode};
    let mut pcs = vec![];
    for _ in 0..2 {
        let mut se = SettingEngine::default();
        se.set_ice_multicast_dns_mode(MulticastDnsMode::Disabled);
        se.set_include_loopback_candidate(true);
        let api = APIBuilder::new().with_setting_engine(se).build();
        pcs.push(api.new_peer_connection(Default::default()).await.ok()?);
    }
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let dc = pcs[0].create_data_channel("data", None).await.ok()?;
    dc.on_open(Box::new(move || {
        let _ = tx.send(());
        Box::pin(async {})
    }));
    let mut gathered = pcs[0].gathering_complete_promise().await;
    let offer = pcs[0].create_offer(None).await.ok()?;
    pcs[0].set_local_description(offer).await.ok()?;
    gathered.recv().await;
    pcs[1].set_remote_description(pcs[0].local_description().await?).await.ok()?;
    let mut gathered = pcs[1].gathering_complete_promise().await;
    let answer = pcs[1].create_answer(None).await.ok()?;
    pcs[1].set_local_description(answer).await.ok()?;
    gathered.recv().await;
    pcs[0].set_remote_description(pcs[1].local_description().await?).await.ok()?;
    let res = timeout_at(Instant::now() + Duration::from_secs(10), rx.recv()).await.ok()?;
    for pc in pcs {
        let _ = pc.close().await;
    }
    res
}

enum Res {
    Done,
    /// The connection broke, or there is no network
    Broken,
    Late,
}

/// Connects, and gives the texts after that many events.
async fn phase(ends: &mut [End], x: &In, c: &mut Case) -> Res {
    let give = |ends: &mut [End], n: Option<u8>| {
        for (e, t, k) in &x.texts {
            if n.map_or(*k > 0, |n| n == *k) {
                ends[*e as usize].text(t.text());
            }
        }
    };
    for e in &mut *ends {
        e.connected = false;
    }
    let connect = |ends: &mut [End], e: usize| {
        let peer = ends[e].peer;
        ends[e].conn.emit_msg_in(WebRTCConnIn::Connect(peer)).unwrap();
    };
    give(ends, Some(0));
    connect(ends, x.first as usize);
    if x.both == Some(0) {
        connect(ends, !x.first as usize);
    }
    let mut events = 0u8;
    let mut quiet = Instant::now() + Duration::from_secs(15);
    loop {
        let done = ends[0].got.len() >= ends[1].sent.len() && ends[1].got.len() >= ends[0].sent.len();
        if done && events == u8::MAX && ends.iter().all(|e| e.connected) {
            c.count("texts", ends[0].got.len() as u64 + ends[1].got.len() as u64);
            return Res::Done;
        }
        let (a, b) = ends.split_at_mut(1);
        let r = timeout_at(quiet, async {
            tokio::select! {
                Some(m) = a[0].out.recv() => (0, m),
                Some(m) = b[0].out.recv() => (1, m),
            }
        })
        .await;
        let Ok((e, WebRTCConnOut::Message(_, m))) = r else {
            return if ends.iter().all(|e| e.connected) { Res::Late } else { Res::Broken };
        };
        match m {
            NCOutput::Setup(dir, pm) => ends[1 - e].give(NCInput::Setup(dir.other(), pm)),
            NCOutput::Connected(_) => ends[e].connected = true,
            NCOutput::Disconnected(_) => return Res::Broken,
            NCOutput::Text(t) => {
                ends[e].got.push(t);
                quiet = Instant::now() + Duration::from_secs(15);
            }
            NCOutput::State(..) => {}
            _ => continue,
        }
        if events < u8::MAX {
            events += 1;
            if events < 40 {
                if x.both == Some(events) {
                    connect(ends, !x.first as usize);
                }
                give(ends, Some(events));
            }
            if events >= 40 || ends.iter().all(|e| e.connected) {
                for n in events.min(40) + 1..=40 {
                    give(ends, Some(n));
                }
                events = u8::MAX;
            }
        }
    }
}

const GARBAGE: [&str; 6] = ["", "\"", "v=0\r\n", "\\", "a=\r\nb", "{}"];

async fn run_real(x: &In, c: &mut Case) -> TestResult {
    for _ in 0..3 {
        if !run_once(x, c).await? || x.both.is_some() {
            return Ok(());
        }
        // Without a second attempt of the other end, nothing disturbs the connection.
        if library_connects().await.is_none() {
            c.label("no network");
            return Ok(());
        }
    }
    Err("the connection doesn't come up or breaks, again and again".into())
}

/// Whether the connection broke.
async fn run_once(x: &In, c: &mut Case) -> Result<bool, String> {
    let mut broken = false;
    let ids = [U256::rnd(), U256::rnd()];
    let mut ends = [End::new(ids[1]).await, End::new(ids[0]).await];
    let mut res = Ok(());
    for round in 0..1 + x.again as usize {
        match phase(&mut ends, x, c).await {
            Res::Done => c.nontrivial(true),
            Res::Broken => {
                c.label("no connection");
                broken = true;
                break;
            }
            Res::Late => {
                res = Err("texts don't arrive although the connection is open".to_string());
            }
        }
        for e in 0..2 {
            let (got, sent) = (&ends[e].got, &ends[1 - e].sent);
            // With two channels, or if one was replaced, texts can overtake each other
            let (mut g, mut s) = (got.clone(), sent.clone());
            g.sort();
            s.sort();
            if res.is_ok() && g != s {
                res = Err(format!("other texts arrive ({}) than were sent ({})", g.len(), s.len()));
            }
            if res.is_ok() && x.both.is_none() && got != sent {
                res = Err("texts don't arrive in the order they were sent".into());
            }
        }
        if res.is_err() {
            break;
        }
        if round == 0 && x.again {
            for e in &mut ends {
                e.give(NCInput::Disconnect);
            }
            tokio::time::sleep(Duration::from_millis(50)).await;
            for e in &mut ends {
                while e.out.try_recv().is_ok() {}
            }
        }
    }
    for (e, out, k) in &x.garbage {
        let s = GARBAGE[*k as usize % GARBAGE.len()].to_string();
        let m = match k / 6 % 3 {
            0 => PeerMessage::Offer(s),
            1 => PeerMessage::Answer(s),
            _ => PeerMessage::IceCandidate(s),
        };
        let d = if *out {
            flarch::web_rtc::node_connection::Direction::Outgoing
        } else {
            flarch::web_rtc::node_connection::Direction::Incoming
        };
        ends[*e as usize].give(NCInput::Setup(d, m));
    }
    for e in &mut ends {
        e.give(NCInput::Disconnect);
    }
    tokio::time::sleep(Duration::from_millis(50)).await;
    for e in &mut ends {
        unlink(&mut e.conn).await;
    }
    res.map(|_| broken)
}

pub fn run_rtc(x: &In2, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on_io(run_real(&x.0, c));
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct In2(In);

pub fn sub(ctx: &mut Ctx) {
    ctx.sub(
        Spec {
            name: "webrtc",
            rule: "two nodes with real WebRTC connections over a local interface, with texts given at any moment of the setup; non-trivial: the connection was established",
            quick: 800,
            thorough: 20_000,
            max_s: 25,
        },
        vec![],
        || strat().prop_map(In2),
        run_rtc,
    );
}
