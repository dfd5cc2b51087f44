//! C25: the WebSocket server and client, over real sockets on the loopback interface.

use super::conn::{text, Text};
use crate::fw::{take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::web_rtc::web_socket_client::WebSocketClient;
use flarch::web_rtc::web_socket_server::WebSocketServer;
use flarch::web_rtc::websocket::{
    BrokerWSClient, BrokerWSServer, WSClientIn, WSClientOut, WSServerIn, WSServerOut,
};
use futures::stream::SplitSink;
use futures::{SinkExt, StreamExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc::UnboundedReceiver;
use tokio::task::JoinHandle;
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::{accept_async, client_async, WebSocketStream};

/// Real I/O, but the time only passes when the harness lets it.
fn block_on_net<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(f)
}

/// Lets the tasks and the kernel work a bit, and the given time pass.
async fn turn(ms: u64) {
    for _ in 0..3 {
        tokio::task::yield_now().await;
    }
    std::thread::sleep(Duration::from_micros(20));
    tokio::time::advance(Duration::from_millis(ms)).await;
}

/// Waits until something happened, for some real seconds at most.
async fn until(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let start = std::time::Instant::now();
    for i in 0.. {
        if f() {
            return true;
        }
        if i > 300 && start.elapsed() > Duration::from_secs(4) {
            break;
        }
        turn(ms).await;
    }
    false
}

/// A port which isn't used by anybody else; the ephemeral ports are higher.
fn port() -> u16 {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = NEXT.fetch_add(1, Ordering::SeqCst) + std::process::id() * 37;
    (12000 + n % 20000) as u16
}

type Sink = SplitSink<WebSocketStream<TcpStream>, Message>;

/// What comes out of a WebSocket
#[derive(Default)]
struct Inbox {
    texts: Vec<String>,
    /// The other end closed it
    closed: bool,
    end: bool,
}

struct Peer {
    sink: Option<Sink>,
    inbox: Arc<Mutex<Inbox>>,
    task: JoinHandle<()>,
}

impl Peer {
    fn new(ws: WebSocketStream<TcpStream>) -> Self {
        let (sink, mut rd) = ws.split();
        let inbox: Arc<Mutex<Inbox>> = Arc::default();
        let i = inbox.clone();
        let task = tokio::spawn(async move {
            while let Some(Ok(m)) = rd.next().await {
                match m {
                    Message::Text(t) => i.lock().unwrap().texts.push(t.to_string()),
                    Message::Close(_) => i.lock().unwrap().closed = true,
                    _ => {}
                }
            }
            i.lock().unwrap().end = true;
        });
        Self { sink: Some(sink), inbox, task }
    }

    async fn send(&mut self, m: Message) {
        if let Some(s) = self.sink.as_mut() {
            let _ = s.send(m).await;
        }
    }

    fn texts(&self) -> Vec<String> {
        self.inbox.lock().unwrap().texts.iter().filter(|t| *t != "lost").cloned().collect()
    }

    fn end(&self) -> bool {
        self.inbox.lock().unwrap().end
    }

    /// Without saying goodbye
    async fn cut(&mut self) {
        self.task.abort();
        self.sink = None;
        turn(0).await;
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Open,
    /// A connection which never says anything
    Stall,
    /// A connection which isn't a WebSocket
    Bad(u8),
    DropStall(u8),
    Text(u8, Text),
    Other(u8, u8),
    Server(u8, Text),
    Unknown(u8),
    ServerClose(u8),
    Close(u8),
    Cut(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    /// Each one with whether everything must arrive before the next one
    ops: Vec<(Op, bool)>,
}

fn strat() -> BoxedStrategy<In> {
    let b = any::<u8>;
    prop::collection::vec(
        (
            prop_oneof![
                4 => Just(Op::Open),
                1 => Just(Op::Stall),
                1 => b().prop_map(Op::Bad),
                1 => b().prop_map(Op::DropStall),
                5 => (b(), text()).prop_map(|(a, t)| Op::Text(a, t)),
                1 => (b(), b()).prop_map(|(a, t)| Op::Other(a, t)),
                5 => (b(), text()).prop_map(|(a, t)| Op::Server(a, t)),
                1 => b().prop_map(Op::Unknown),
                1 => b().prop_map(Op::ServerClose),
                1 => b().prop_map(Op::Close),
                1 => b().prop_map(Op::Cut),
            ],
            prop::bool::weighted(0.4),
        ),
        1..30,
    )
    .prop_map(|ops| In { ops })
    .boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Open,
    /// By the client, and it said so
    Closed,
    /// The client vanished
    Cut,
    /// By the server
    Ended,
}

struct Client {
    id: usize,
    peer: Peer,
    state: State,
    sent: Vec<String>,
    due: Vec<String>,
}

/// What the server reports about one connection
#[derive(Default)]
struct Seen {
    texts: Vec<String>,
    gone: bool,
}

struct Server {
    broker: BrokerWSServer,
    out: UnboundedReceiver<WSServerOut>,
    seen: BTreeMap<usize, Seen>,
    stopped: bool,
    port: u16,
    clients: Vec<Client>,
    stalls: Vec<TcpStream>,
    fault: Option<String>,
}

async fn start_server() -> Option<(BrokerWSServer, u16)> {
    for _ in 0..50 {
        let port = port();
        if let Ok(b) = WebSocketServer::new(port).await {
            return Some((b, port));
        }
    }
    None
}

impl Server {
    fn events(&mut self) {
        while let Ok(m) = self.out.try_recv() {
            let fault = match m {
                _ if self.stopped => Some(format!("{m:?} after it stopped")),
                WSServerOut::NewConnection(i) => self
                    .seen
                    .insert(i, Seen::default())
                    .map(|_| format!("two connections have the index {i}")),
                WSServerOut::Message(i, t) => match self.seen.get_mut(&i) {
                    Some(s) if !s.gone => {
                        s.texts.push(t);
                        None
                    }
                    Some(_) => Some("a message comes after the disconnection".into()),
                    None => Some("a message comes before its connection".into()),
                },
                WSServerOut::Disconnection(i) => match self.seen.get_mut(&i) {
                    Some(s) if !s.gone => {
                        s.gone = true;
                        None
                    }
                    Some(_) => Some("a disconnection is reported twice".into()),
                    None => Some("a disconnection comes before its connection".into()),
                },
                WSServerOut::Stopped => {
                    self.stopped = true;
                    None
                }
            };
            self.fault = self.fault.take().or(fault);
        }
    }

    /// Whether everything happened which has to happen
    fn settled(&mut self) -> bool {
        self.events();
        let empty = Seen::default();
        self.clients.iter().all(|c| {
            let seen = self.seen.get(&c.id).unwrap_or(&empty);
            match c.state {
                State::Open => seen.texts.len() >= c.sent.len() && c.peer.texts().len() >= c.due.len(),
                State::Closed => seen.texts.len() >= c.sent.len() && seen.gone && c.peer.end(),
                State::Cut => seen.gone,
                State::Ended => seen.gone && c.peer.end(),
            }
        })
    }

    async fn settle(&mut self) -> TestResult {
        let ok = until(0, || self.settled()).await;
        if let Some(f) = &self.fault {
            return Err(f.clone());
        }
        for (i, c) in self.clients.iter().enumerate() {
            let Some(seen) = self.seen.get(&c.id) else {
                return Err("a connection vanished".into());
            };
            let got = c.peer.texts();
            let s = format!("client {i} ({:?})", c.state);
            ensure!(got.len() <= c.due.len() && got == c.due[..got.len()], "{s} gets other texts than the server sent to it: {} instead of {}", got.len(), c.due.len());
            ensure!(
                seen.texts.len() <= c.sent.len() && seen.texts == c.sent[..seen.texts.len()],
                "other texts come from {s} than it sent: {} instead of {}", seen.texts.len(), c.sent.len()
            );
            if c.state == State::Open {
                ensure!(!seen.gone && !c.peer.end(), "the connection of {s} ends by itself");
                ensure_eq!(seen.texts.len(), c.sent.len(), "texts which arrive from {s}");
                ensure_eq!(got.len(), c.due.len(), "texts which arrive at {s}");
            } else {
                ensure!(seen.gone, "the end of {s} isn't reported");
                if c.state == State::Closed {
                    ensure_eq!(seen.texts.len(), c.sent.len(), "texts which arrive from {s}");
                }
                ensure!(c.state == State::Cut || c.peer.end(), "the connection of {s} isn't closed");
            }
        }
        ensure!(ok, "the server doesn't settle");
        ensure_eq!(self.seen.len(), self.clients.len(), "number of connections");
        Ok(())
    }

    async fn open(&mut self) -> TestResult {
        let port = self.port;
        let task = tokio::spawn(async move {
            let s = TcpStream::connect(("127.0.0.1", port)).await.ok()?;
            Some(client_async("ws://localhost/", s).await.ok()?.0)
        });
        let ids: BTreeSet<usize> = self.seen.keys().cloned().collect();
        let n = ids.len();
        until(0, || {
            self.events();
            task.is_finished() && self.seen.len() > n
        })
        .await;
        ensure!(task.is_finished(), "a client cannot connect");
        let Some(ws) = task.await.unwrap() else {
            return Err("a client cannot connect".into());
        };
        let Some(id) = self.seen.keys().find(|i| !ids.contains(i)) else {
            return Err("a new connection isn't reported".into());
        };
        self.clients.push(Client {
            id: *id,
            peer: Peer::new(ws),
            state: State::Open,
            sent: vec![],
            due: vec![],
        });
        Ok(())
    }

    fn pick(&mut self, i: u8) -> Option<&mut Client> {
        let n = self.clients.len();
        (n > 0).then(|| &mut self.clients[i as usize % n])
    }

    fn emit(&mut self, m: WSServerIn) {
        self.broker.emit_msg_in(m).unwrap();
    }
}

async fn run_ops(x: &In, s: &mut Server, c: &mut Case) -> TestResult {
    let (mut texts, mut ends) = (0, 0);
    for (op, settle) in &x.ops {
        match op {
            Op::Open => s.open().await?,
            Op::Stall | Op::Bad(_) => {
                if let Ok(mut t) = TcpStream::connect(("127.0.0.1", s.port)).await {
                    if let Op::Bad(k) = op {
                        let m = ["\0", "GET / HTTP/1.1\r\n\r\n", "GET ", "\r\n\r\n", "HELO\r\n"];
                        let _ = t.write_all(m[*k as usize % m.len()].as_bytes()).await;
                    }
                    s.stalls.push(t);
                }
            }
            Op::DropStall(k) => {
                let n = s.stalls.len();
                if n > 0 {
                    s.stalls.remove(*k as usize % n);
                }
            }
            Op::Text(k, t) => {
                let Some(cl) = s.pick(*k) else { continue };
                if cl.state == State::Open {
                    let t = t.text();
                    cl.sent.push(t.clone());
                    cl.peer.send(Message::text(t)).await;
                    texts += 1;
                }
            }
            Op::Other(k, m) => {
                let Some(cl) = s.pick(*k) else { continue };
                if cl.state == State::Open {
                    let m = match m % 3 {
                        0 => Message::Ping(vec![*m].into()),
                        1 => Message::Pong(vec![*m].into()),
                        _ => Message::Binary(vec![*m; 3].into()),
                    };
                    cl.peer.send(m).await;
                }
            }
            Op::Server(k, t) => {
                let Some(cl) = s.pick(*k) else { continue };
                let (t, id) = (t.text(), cl.id);
                // To a client which is gone, nothing happens
                cl.due.push(t.clone());
                s.emit(WSServerIn::Message(id, t));
                texts += 1;
            }
            Op::Unknown(k) => {
                let id = s.seen.keys().last().map_or(0, |i| i + 1) + *k as usize;
                s.emit(if k % 2 == 0 {
                    WSServerIn::Message(id, "unknown".into())
                } else {
                    WSServerIn::Close(id)
                });
            }
            Op::ServerClose(k) => {
                let Some(cl) = s.pick(*k) else { continue };
                let id = cl.id;
                cl.state = match cl.state {
                    State::Open => State::Ended,
                    // Some of its texts can be lost
                    State::Closed => State::Cut,
                    s => s,
                };
                ends += 1;
                s.emit(WSServerIn::Close(id));
            }
            Op::Close(k) => {
                let Some(cl) = s.pick(*k) else { continue };
                if cl.state == State::Open {
                    cl.state = State::Closed;
                    cl.peer.send(Message::Close(None)).await;
                    ends += 1;
                }
            }
            Op::Cut(k) => {
                let Some(cl) = s.pick(*k) else { continue };
                if cl.state == State::Open {
                    cl.state = State::Cut;
                    cl.peer.cut().await;
                    ends += 1;
                }
            }
        }
        if *settle {
            s.settle().await?;
        }
    }
    s.settle().await?;
    c.count("texts", texts);
    c.count("connections", s.clients.len() as u64);
    c.label_if(ends > 0, "connection closed");
    c.nontrivial(s.clients.len() > 1 && texts > 1);
    // Once stopped, nothing happens any more
    s.emit(WSServerIn::Stop);
    let ok = until(0, || {
        s.events();
        s.stopped && s.clients.iter().all(|c| c.peer.end() || c.state != State::Open)
    })
    .await;
    ensure!(s.stopped, "the server doesn't stop");
    ensure!(ok, "a connection is still open after the server stopped");
    for _ in 0..5 {
        turn(0).await;
    }
    let r = TcpStream::connect(("127.0.0.1", s.port)).await;
    ensure!(r.is_err(), "the server is still listening after it stopped");
    s.events();
    match &s.fault {
        Some(f) if !f.contains("Disconnection") => Err(f.clone()),
        _ => Ok(()),
    }
}

fn run_server(x: &In, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on_net(async {
        let Some((mut broker, port)) = start_server().await else {
            return Ok(());
        };
        let out = broker.get_tap_out().await.unwrap().0;
        let mut s = Server {
            broker,
            out,
            seen: BTreeMap::new(),
            stopped: false,
            port,
            clients: vec![],
            stalls: vec![],
            fault: None,
        };
        let r = run_ops(x, &mut s, c).await;
        s.emit(WSServerIn::Stop);
        turn(0).await;
        unlink(&mut s.broker).await;
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ClOp {
    Send(Text),
    /// A text which can get lost, as the connection might be broken
    SendLost(u8),
    Server(Text),
    Other(u8),
    ServerClose(bool),
    ServerCut(bool),
    /// The server isn't there for some time
    Down,
    Up,
    Disconnect,
    Connect,
    Wait(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ClIn {
    up: bool,
    ops: Vec<(ClOp, bool)>,
}

fn strat_client() -> BoxedStrategy<ClIn> {
    let op = prop_oneof![
        6 => text().prop_map(ClOp::Send),
        2 => (1u8..5).prop_map(ClOp::SendLost),
        6 => text().prop_map(ClOp::Server),
        1 => any::<u8>().prop_map(ClOp::Other),
        2 => any::<bool>().prop_map(ClOp::ServerClose),
        2 => any::<bool>().prop_map(ClOp::ServerCut),
        1 => Just(ClOp::Down),
        2 => Just(ClOp::Up),
        1 => Just(ClOp::Disconnect),
        1 => Just(ClOp::Connect),
        1 => (1u8..50).prop_map(ClOp::Wait),
    ];
    (
        prop::bool::weighted(0.9),
        prop::collection::vec((op, prop::bool::weighted(0.6)), 1..25),
    )
        .prop_map(|(up, ops)| ClIn { up, ops })
        .boxed()
}

/// A server which only does what it is told
struct Script {
    port: u16,
    listener: Option<JoinHandle<()>>,
    conns: Arc<Mutex<Vec<Peer>>>,
}

impl Script {
    async fn up(&mut self) -> bool {
        let Ok(l) = TcpListener::bind(("127.0.0.1", self.port)).await else {
            return false;
        };
        let conns = self.conns.clone();
        self.listener = Some(tokio::spawn(async move {
            loop {
                if let Ok((s, _)) = l.accept().await {
                    if let Ok(ws) = accept_async(s).await {
                        conns.lock().unwrap().push(Peer::new(ws));
                    }
                }
            }
        }));
        true
    }

    async fn down(&mut self) {
        if let Some(l) = self.listener.take() {
            l.abort();
            let _ = l.await;
        }
    }

    fn live(&self) -> usize {
        self.conns.lock().unwrap().iter().filter(|p| p.sink.is_some() && !p.end()).count()
    }

    /// Takes the current connection out of the list
    fn take(&self) -> Option<(usize, Peer)> {
        let mut c = self.conns.lock().unwrap();
        let i = c.iter().rposition(|p| p.sink.is_some() && !p.end())?;
        Some((i, c.swap_remove(i)))
    }

    fn put(&self, p: Peer) {
        self.conns.lock().unwrap().push(p);
    }
}

struct Cl {
    broker: BrokerWSClient,
    out: UnboundedReceiver<WSClientOut>,
    got: Vec<String>,
    script: Script,
    /// What the client sent since the last connection, and what it must get
    sent: Vec<String>,
    due: Vec<String>,
    /// The user wants to be connected
    wanted: bool,
    /// It will be connected without anything more
    online: bool,
    disrupted: bool,
}

impl Cl {
    fn events(&mut self) {
        while let Ok(m) = self.out.try_recv() {
            if let WSClientOut::Message(m) = m {
                self.got.push(m);
            }
        }
    }

    fn emit(&mut self, m: WSClientIn) -> TestResult {
        self.broker.emit_msg_in(m).map_err(|e| format!("the client is broken: {e}"))
    }

    async fn settle(&mut self) -> TestResult {
        for _ in 0..5 {
            turn(0).await;
        }
        let p = take_panics();
        ensure!(p.is_empty(), "{p:?}");
        if self.wanted && self.script.listener.is_some() && self.online {
            let ok = until(20, || self.script.live() == 1).await;
            ensure!(ok, "{} connections instead of one", self.script.live());
            // It only starts reading some time later
            for _ in 0..10 {
                turn(200).await;
            }
            ensure_eq!(self.script.live(), 1, "number of connections after some seconds");
            self.disrupted = false;
        }
        if !self.wanted {
            let ok = until(20, || self.script.live() == 0).await;
            ensure!(ok, "still connected after a disconnection");
            for _ in 0..10 {
                turn(1000).await;
            }
            ensure_eq!(self.script.live(), 0, "number of connections after a disconnection");
        }
        let ok = until(100, || {
            self.events();
            self.got.len() >= self.due.len()
                && (self.sent.is_empty()
                    || self.script.conns.lock().unwrap().last().map_or(0, |p| p.texts().len()) >= self.sent.len())
        })
        .await;
        let have = self.script.conns.lock().unwrap().last().map(|p| p.texts()).unwrap_or_default();
        ensure!(
            self.got.len() <= self.due.len() && self.got == self.due[..self.got.len()],
            "the client reports other texts ({}) than it was sent ({})", self.got.len(), self.due.len()
        );
        ensure!(ok, "texts don't arrive: {} of {} at the client, {} of {} at the server", self.got.len(), self.due.len(), have.len(), self.sent.len());
        Ok(())
    }

    /// The connection is about to change: what is on its way can be lost
    async fn change(&mut self) -> TestResult {
        if self.online || !self.wanted {
            self.settle().await?;
        }
        Ok(())
    }

    async fn stable(&mut self) -> TestResult {
        if self.disrupted {
            self.change().await?;
        }
        Ok(())
    }

    fn reset(&mut self) {
        self.sent.clear();
        self.due.clear();
        self.got.clear();
    }
}

async fn run_client_ops(x: &ClIn, s: &mut Cl, c: &mut Case) -> TestResult {
    let (mut texts, mut changes) = (0, 0);
    for (op, settle) in &x.ops {
        match op {
            ClOp::Send(t) => {
                s.stable().await?;
                let t = t.text();
                if s.wanted && s.online {
                    s.sent.push(t.clone());
                    s.emit(WSClientIn::Message(t))?;
                    texts += 1;
                } else if s.wanted && s.script.listener.is_some() {
                    // The client connects again when it has to send something, at the latest
                    // after two texts. These can be lost.
                    for _ in 0..3 {
                        if s.script.live() == 0 {
                            s.emit(WSClientIn::Message("lost".into()))?;
                            until(20, || s.script.live() > 0).await;
                        }
                    }
                    ensure!(s.script.live() > 0, "the client doesn't connect again");
                    s.online = true;
                    s.disrupted = true;
                    s.reset();
                }
            }
            ClOp::SendLost(n) => {
                if s.wanted {
                    for _ in 0..*n {
                        s.emit(WSClientIn::Message("lost".into()))?;
                        turn(0).await;
                    }
                    if s.script.listener.is_some() && !s.online {
                        s.online = true;
                        s.disrupted = true;
                        s.emit(WSClientIn::Message("lost".into()))?;
                        s.emit(WSClientIn::Message("lost".into()))?;
                    }
                }
            }
            ClOp::Server(_) | ClOp::Other(_) => {
                s.stable().await?;
                if s.online && s.wanted {
                    if let Some((_, mut p)) = s.script.take() {
                        match op {
                            ClOp::Server(t) => {
                                let t = t.text();
                                s.due.push(t.clone());
                                p.send(Message::text(t)).await;
                                texts += 1;
                            }
                            ClOp::Other(m) => {
                                let m = match m % 3 {
                                    0 => Message::Ping(vec![*m].into()),
                                    1 => Message::Pong(vec![*m].into()),
                                    _ => Message::Binary(vec![*m; 3].into()),
                                };
                                p.send(m).await;
                            }
                            _ => {}
                        }
                        s.script.put(p);
                    }
                }
            }
            ClOp::ServerClose(early) | ClOp::ServerCut(early) => {
                s.events();
                if *early && s.wanted && s.online && s.got.len() == s.due.len() {
                    // The client might not even be reading yet
                    until(1, || s.script.live() == 1).await;
                } else {
                    s.change().await?;
                }
                if let Some((_, mut p)) = s.script.take() {
                    changes += 1;
                    s.reset();
                    if matches!(op, ClOp::ServerClose(_)) {
                        p.send(Message::Close(None)).await;
                        turn(10).await;
                    }
                    p.cut().await;
                    s.disrupted = true;
                    if s.script.listener.is_none() {
                        s.online = false;
                        // The client notices it
                        for _ in 0..20 {
                            turn(200).await;
                        }
                    }
                }
            }
            ClOp::Down => {
                s.change().await?;
                s.script.down().await;
                if s.script.live() == 0 {
                    s.online = false;
                }
            }
            ClOp::Up => {
                if s.script.listener.is_none() {
                    s.script.up().await;
                }
            }
            ClOp::Disconnect => {
                s.change().await?;
                if s.wanted {
                    changes += 1;
                    s.reset();
                    s.wanted = false;
                    s.emit(WSClientIn::Disconnect)?;
                    s.settle().await?;
                }
            }
            ClOp::Connect => {
                s.change().await?;
                changes += 1;
                s.wanted = true;
                s.online = s.script.listener.is_some();
                s.disrupted = true;
                s.reset();
                let n = s.script.conns.lock().unwrap().len();
                s.emit(WSClientIn::Connect)?;
                if s.online {
                    let conns = s.script.conns.clone();
                    let ok = until(20, || conns.lock().unwrap().len() > n).await;
                    ensure!(ok, "the client doesn't connect when it is told");
                }
            }
            ClOp::Wait(n) => {
                for _ in 0..*n {
                    turn(100).await;
                }
            }
        }
        if *settle {
            s.settle().await?;
        }
    }
    s.settle().await?;
    c.count("texts", texts);
    c.label_if(changes > 0, "connection changed");
    c.nontrivial(texts > 1);
    Ok(())
}

fn run_client(x: &ClIn, c: &mut Case) -> TestResult {
    take_panics();
    let r = block_on_net(async {
        let mut script = Script { port: port(), listener: None, conns: Arc::default() };
        for _ in 0..50 {
            if script.up().await {
                break;
            }
            script.port = port();
        }
        if script.listener.is_none() {
            return Ok(());
        }
        if !x.up {
            script.down().await;
        }
        let mut broker =
            WebSocketClient::connect(&format!("ws://127.0.0.1:{}", script.port)).await.unwrap();
        let out = broker.get_tap_out().await.unwrap().0;
        let mut s = Cl {
            broker,
            out,
            got: vec![],
            script,
            sent: vec![],
            due: vec![],
            wanted: true,
            online: x.up,
            disrupted: true,
        };
        for _ in 0..20 {
            turn(10).await;
        }
        let r = run_client_ops(x, &mut s, c).await;
        s.script.down().await;
        unlink(&mut s.broker).await;
        r
    });
    let p = take_panics();
    r?;
    ensure!(p.is_empty(), "{p:?}");
    Ok(())
}

pub fn run_ws(ctx: &mut Ctx) {
    ctx.sub(
        Spec {
            name: "server",
            rule: "up to 30 connections, texts in both directions, closings, broken and stalled connections on a real server; non-trivial: at least two connections and two texts",
            quick: 8_000,
            thorough: 100_000,
            max_s: 40,
        },
        vec![],
        strat,
        run_server,
    );
    ctx.sub(
        Spec {
            name: "client",
            rule: "up to 25 texts in both directions, closed and broken connections, and absences of the server; non-trivial: at least two texts were sent",
            quick: 4_000,
            thorough: 100_000,
            max_s: 40,
        },
        vec![],
        strat_client,
        run_client,
    );
}
